#include <cmath>
// symx: a bounded symbolic executor for LLVM IR produced from the real sources.
// Every feasible path of an entry function is executed with symbolic inputs; branch feasibility,
// assertions and memory-safety conditions are decided by Z3.
#include "expr.hpp"
#include "solver.hpp"

#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <memory>
#include <set>
#include <map>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using namespace se;
namespace L = llvm;

struct Val {
    uint64_t c = 0; Expr* e = nullptr; uint16_t w = 0;
    bool isC() const { return !e; }
    Expr* ex() const { return e ? e : mkConst(c, w); }
};
static Val VC(uint64_t c, unsigned w) { Val v; v.c = c & maskOf(w); v.w = w; return v; }
static Val VE(Expr* e) {
    Val v; v.w = e->width;
    if (e->op == Op::Const) { v.c = e->val; return v; }
    v.e = e; return v;
}

// ---------------------------------------------------------------- memory
static const unsigned PB = 256;
struct Page {
    uint8_t d[PB];
    std::unique_ptr<Expr*[]> s;
    Page() {}
    Page(const Page& o) { memcpy(d, o.d, PB); if (o.s) { s.reset(new Expr*[PB]); memcpy(s.get(), o.s.get(), PB * sizeof(Expr*)); } }
};
enum Kind : uint8_t { KGlobal, KStack, KHeap, KExc };
struct Obj {
    uint64_t size = 0; Kind kind = KGlobal; uint8_t fill = 0; bool ro = false; bool lazyOnly = false;
    std::vector<std::shared_ptr<Page>> pages;
    const L::Value* site = nullptr;
};
using ObjP = std::shared_ptr<Obj>;
struct ObjPage { ObjP o[64]; uint8_t st[64] = {0}; };  // 0 none, 1 live, 2 freed
static const unsigned ADDR_SHIFT = 24;
static uint64_t addrOf(uint64_t id) { return (id + 1) << ADDR_SHIFT; }

struct Mem {
    std::vector<std::shared_ptr<ObjPage>> t;
    uint64_t next = 0;
    std::vector<uint32_t> freeStack;
    Obj* get(uint64_t id) const { if (id >= next) return nullptr; auto& p = t[id >> 6]; return p->st[id & 63] == 1 ? p->o[id & 63].get() : nullptr; }
    uint8_t status(uint64_t id) const { if (id >= next) return 0; return t[id >> 6]->st[id & 63]; }
    ObjPage& pageW(uint64_t id) { auto& p = t[id >> 6]; if (p.use_count() > 1) p = std::make_shared<ObjPage>(*p); return *p; }
    Obj* getW(uint64_t id) {
        ObjPage& p = pageW(id); ObjP& o = p.o[id & 63];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    uint64_t alloc(uint64_t size, Kind k, uint8_t fill, const L::Value* site) {
        uint64_t id;
        if (k == KStack && !freeStack.empty()) { id = freeStack.back(); freeStack.pop_back(); }
        else { id = next++; if ((id >> 6) >= t.size()) t.push_back(std::make_shared<ObjPage>()); }
        ObjPage& p = pageW(id);
        auto o = std::make_shared<Obj>(); o->size = size; o->kind = k; o->fill = fill; o->site = site;
        o->pages.resize((size + PB - 1) / PB);
        p.o[id & 63] = o; p.st[id & 63] = 1;
        return id;
    }
    void free(uint64_t id) {
        Obj* o = get(id);
        bool stack = o && o->kind == KStack;
        ObjPage& p = pageW(id); p.o[id & 63].reset(); p.st[id & 63] = 2;
        if (stack) freeStack.push_back((uint32_t)id);
    }
};
static Page& pageFor(Obj* o, uint64_t off) {
    auto& p = o->pages[off / PB];
    if (!p) { p = std::make_shared<Page>(); memset(p->d, o->fill, PB); }
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    return *p;
}
static void wrByteC(Obj* o, uint64_t off, uint8_t v) { Page& p = pageFor(o, off); p.d[off % PB] = v; if (p.s) p.s[off % PB] = nullptr; }
static void wrByteE(Obj* o, uint64_t off, Expr* e) {
    if (e->op == Op::Const) { wrByteC(o, off, (uint8_t)e->val); return; }
    Page& p = pageFor(o, off);
    if (!p.s) { p.s.reset(new Expr*[PB]); memset(p.s.get(), 0, PB * sizeof(Expr*)); }
    p.s[off % PB] = e;
}
static Val rdByte(Obj* o, uint64_t off) {
    auto& p = o->pages[off / PB];
    if (!p) return VC(o->fill, 8);
    if (p->s && p->s[off % PB]) return VE(p->s[off % PB]);
    return VC(p->d[off % PB], 8);
}
static Val rdN(Obj* o, uint64_t off, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    bool sym = false; uint64_t c = 0;
    if (n <= 8) {
        for (unsigned i = 0; i < n; ++i) {
            auto& p = o->pages[(off + i) / PB];
            if (!p) { c |= (uint64_t)o->fill << (8 * i); continue; }
            unsigned k = (off + i) % PB;
            if (p->s && p->s[k]) { sym = true; break; }
            c |= (uint64_t)p->d[k] << (8 * i);
        }
        if (!sym) return VC(c, bits);
    }
    Expr* r = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        Expr* b = rdByte(o, off + i).ex();
        r = r ? mkConcat(b, r) : b;
    }
    if (bits != n * 8) r = mkExtract(r, 0, bits);
    return VE(r);
}
static void wrN(Obj* o, uint64_t off, const Val& v, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    if (v.isC()) { uint64_t c = v.c; for (unsigned i = 0; i < n; ++i) { wrByteC(o, off + i, (uint8_t)c); c >>= 8; } return; }
    Expr* e = v.e;
    if (bits != n * 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i) wrByteE(o, off + i, mkExtract(e, 8 * i, 8));
}

// ---------------------------------------------------------------- program representation
struct Leaf { uint32_t off; uint16_t w; };
struct TyInfo { std::vector<Leaf> leaves; uint64_t size = 0; };
struct Opnd { int32_t base; };   // >=0 register slot, <0 constant pool index (-1-base)
struct KFunc;
struct KInst {
    L::Instruction* I = nullptr;
    unsigned opc = 0;
    int dest = -1;
    std::vector<Opnd> ops;
    TyInfo* ty = nullptr;            // type of result / stored value
    int64_t gepC = 0; std::vector<std::pair<unsigned, int64_t>> gepV; // operand idx, scale
    L::Function* callee = nullptr;
    KFunc* kcallee = nullptr;
    int builtin = -1;
    int blk0 = -1, blk1 = -1;        // successors (block index)
};
struct KBlock { unsigned start; unsigned nphi; };
struct KFunc {
    L::Function* F = nullptr;
    std::vector<KInst> code;
    std::vector<KBlock> blocks;
    unsigned nregs = 0;
    std::vector<std::pair<int, unsigned>> args; // slot, count
    std::vector<unsigned> argWidths;
    bool isRepo = false;
    bool executed = false;
    std::string pretty;
};

static L::LLVMContext LC;
static std::unique_ptr<L::Module> M;
static const L::DataLayout* DL;
static std::unordered_map<L::Type*, std::unique_ptr<TyInfo>> tyCache;
static std::vector<Val> cpool;
static std::unordered_map<L::Constant*, int> cpoolIdx;
static std::unordered_map<const L::Function*, std::unique_ptr<KFunc>> kfuncs;
static std::unordered_map<const L::GlobalValue*, uint64_t> gaddr;
static std::vector<L::Function*> funcByIdx;
static std::unordered_map<std::string, int> builtinIdx;

static void flatten(L::Type* T, uint64_t off, TyInfo& ti) {
    if (auto* S = L::dyn_cast<L::StructType>(T)) {
        if (S->isOpaque()) return;
        auto* SL = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); ++i) flatten(S->getElementType(i), off + SL->getElementOffset(i), ti);
    } else if (auto* A = L::dyn_cast<L::ArrayType>(T)) {
        uint64_t es = DL->getTypeAllocSize(A->getElementType());
        for (uint64_t i = 0; i < A->getNumElements(); ++i) flatten(A->getElementType(), off + i * es, ti);
    } else if (auto* V = L::dyn_cast<L::FixedVectorType>(T)) {
        uint64_t es = DL->getTypeSizeInBits(V->getElementType()) / 8; if (!es) es = 1;
        for (uint64_t i = 0; i < V->getNumElements(); ++i) flatten(V->getElementType(), off + i * es, ti);
    } else if (T->isVoidTy() || T->isLabelTy() || T->isMetadataTy() || T->isTokenTy()) {
    } else {
        unsigned w = T->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(T);
        ti.leaves.push_back({(uint32_t)off, (uint16_t)w});
    }
}
static TyInfo* tyInfo(L::Type* T) {
    auto& p = tyCache[T];
    if (!p) { p = std::make_unique<TyInfo>(); if (T->isSized()) p->size = DL->getTypeStoreSize(T); flatten(T, 0, *p); }
    return p.get();
}

static void evalConst(L::Constant* C, std::vector<Val>& out);
static Val evalScalar(L::Constant* C) { std::vector<Val> v; evalConst(C, v); return v.empty() ? VC(0, 64) : v[0]; }

[[noreturn]] static void fatal(const std::string& s) { fprintf(stderr, "symx: fatal: %s\n", s.c_str()); exit(4); }

static void evalConst(L::Constant* C, std::vector<Val>& out) {
    if (auto* CI = L::dyn_cast<L::ConstantInt>(C)) {
        unsigned w = CI->getBitWidth();
        if (w <= 64) out.push_back(VC(CI->getZExtValue(), w));
        else { std::vector<uint64_t> ws(CI->getValue().getRawData(), CI->getValue().getRawData() + CI->getValue().getNumWords()); out.push_back(VE(mkConstWide(w, ws))); if (out.back().isC()) fatal("wide const"); }
        return;
    }
    if (auto* CF = L::dyn_cast<L::ConstantFP>(C)) {
        auto b = CF->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() <= 64) out.push_back(VC(b.getZExtValue(), b.getBitWidth()));
        else { std::vector<uint64_t> ws(b.getRawData(), b.getRawData() + b.getNumWords()); out.push_back(VE(mkConstWide(b.getBitWidth(), ws))); }
        return;
    }
    if (L::isa<L::ConstantPointerNull>(C)) { out.push_back(VC(0, 64)); return; }
    if (L::isa<L::UndefValue>(C) || L::isa<L::ConstantAggregateZero>(C)) {
        for (auto& l : tyInfo(C->getType())->leaves) { if (l.w <= 64) out.push_back(VC(0, l.w)); else out.push_back(VE(mkZExt(mkConst(0, 64), l.w))); }
        return;
    }
    if (auto* GV = L::dyn_cast<L::GlobalValue>(C)) {
        const L::GlobalValue* g = GV;
        if (auto* GA = L::dyn_cast<L::GlobalAlias>(GV)) { evalConst(const_cast<L::Constant*>(GA->getAliasee()), out); return; }
        auto it = gaddr.find(g); if (it == gaddr.end()) fatal("no address for global " + g->getName().str());
        out.push_back(VC(it->second, 64)); return;
    }
    if (L::isa<L::ConstantAggregate>(C)) { for (unsigned i = 0; i < C->getNumOperands(); ++i) evalConst(L::cast<L::Constant>(C->getOperand(i)), out); return; }
    if (auto* CD = L::dyn_cast<L::ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); ++i) evalConst(CD->getElementAsConstant(i), out); return; }
    if (auto* CE = L::dyn_cast<L::ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case L::Instruction::GetElementPtr: {
            auto* G = L::cast<L::GEPOperator>(CE);
            Val b = evalScalar(L::cast<L::Constant>(G->getPointerOperand()));
            L::APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) fatal("constexpr gep");
            out.push_back(VC(b.c + (uint64_t)off.getSExtValue(), 64)); return;
        }
        case L::Instruction::PtrToInt: case L::Instruction::IntToPtr: case L::Instruction::BitCast: case L::Instruction::Trunc: case L::Instruction::ZExt: {
            Val b = evalScalar(CE->getOperand(0)); unsigned w = CE->getType()->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(CE->getType());
            out.push_back(VC(b.c, w)); return;
        }
        case L::Instruction::Add: case L::Instruction::Sub: case L::Instruction::And: case L::Instruction::Or: {
            Val a = evalScalar(CE->getOperand(0)), b = evalScalar(CE->getOperand(1)); unsigned w = a.w;
            uint64_t r = CE->getOpcode() == L::Instruction::Add ? a.c + b.c : CE->getOpcode() == L::Instruction::Sub ? a.c - b.c : CE->getOpcode() == L::Instruction::And ? (a.c & b.c) : (a.c | b.c);
            out.push_back(VC(r, w)); return;
        }
        case L::Instruction::ICmp: {
            Val a = evalScalar(CE->getOperand(0)), b = evalScalar(CE->getOperand(1));
            auto p = (L::CmpInst::Predicate)CE->getPredicate();
            if (p == L::CmpInst::ICMP_EQ) { out.push_back(VC(a.c == b.c, 1)); return; }
            if (p == L::CmpInst::ICMP_NE) { out.push_back(VC(a.c != b.c, 1)); return; }
            break;
        }
        default: break;
        }
    }
    std::string s; L::raw_string_ostream os(s); C->print(os); fatal("constant not supported: " + os.str());
}
static int poolIdx(L::Constant* C) {
    auto it = cpoolIdx.find(C); if (it != cpoolIdx.end()) return it->second;
    std::vector<Val> v; evalConst(C, v);
    int idx = (int)cpool.size(); cpool.insert(cpool.end(), v.begin(), v.end());
    if (v.empty()) cpool.push_back(VC(0, 8));
    cpoolIdx[C] = idx; return idx;
}

static std::string wrapName(L::StringRef n) { return ("__wrap_" + n).str(); }
static L::Function* redirect(L::Function* F) {
    if (auto* W = M->getFunction(wrapName(F->getName()))) if (!W->isDeclaration()) return W;
    if (F->getName().starts_with("__real_")) { if (auto* R = M->getFunction(F->getName().substr(7))) return R; }
    return F;
}
static std::string repoRoot = "/repo/";
static KFunc* kfunc(L::Function* F) {
    auto it = kfuncs.find(F); if (it != kfuncs.end()) return it->second.get();
    auto kf = std::make_unique<KFunc>(); KFunc* K = kf.get(); kfuncs[F] = std::move(kf);
    K->F = F;
    K->pretty = L::demangle(F->getName().str());
    if (auto* SP = F->getSubprogram()) {
        std::string fn = (SP->getDirectory() + "/" + SP->getFilename()).str();
        if (SP->getFilename().starts_with("/")) fn = SP->getFilename().str();
        K->isRepo = fn.rfind(repoRoot, 0) == 0;
    }
    std::unordered_map<L::Value*, int> slot;
    unsigned n = 0;
    for (auto& A : F->args()) { unsigned c = tyInfo(A.getType())->leaves.size(); slot[&A] = n; K->args.push_back({(int)n, c}); K->argWidths.push_back(c ? tyInfo(A.getType())->leaves[0].w : 0); n += c; }
    std::unordered_map<L::BasicBlock*, int> bidx; int bi = 0;
    for (auto& B : *F) { bidx[&B] = bi++; for (auto& I : B) { unsigned c = tyInfo(I.getType())->leaves.size(); if (c) { slot[&I] = n; n += c; } } }
    K->nregs = n;
    for (auto& B : *F) {
        KBlock kb; kb.start = K->code.size(); kb.nphi = 0;
        for (auto& I : B) {
            if (L::isa<L::DbgInfoIntrinsic>(&I)) continue;
            KInst ki; ki.I = &I; ki.opc = I.getOpcode();
            auto s = slot.find(&I); if (s != slot.end()) ki.dest = s->second;
            ki.ty = tyInfo(I.getType());
            if (L::isa<L::PHINode>(&I)) kb.nphi++;
            for (unsigned i = 0; i < I.getNumOperands(); ++i) {
                L::Value* O = I.getOperand(i); Opnd o{0};
                if (auto* SO = slot.count(O) ? O : nullptr) o.base = slot[SO];
                else if (auto* C = L::dyn_cast<L::Constant>(O)) {
                    if (L::isa<L::LandingPadInst>(&I)) o.base = 0; else o.base = -1 - poolIdx(C);
                } else o.base = 0; // labels, metadata, void
                ki.ops.push_back(o);
            }
            if (auto* SI = L::dyn_cast<L::StoreInst>(&I)) ki.ty = tyInfo(SI->getValueOperand()->getType());
            if (auto* G = L::dyn_cast<L::GetElementPtrInst>(&I)) {
                unsigned oi = 1;
                for (auto gti = L::gep_type_begin(G), e = L::gep_type_end(G); gti != e; ++gti, ++oi) {
                    if (auto* ST = gti.getStructTypeOrNull()) {
                        ki.gepC += DL->getStructLayout(ST)->getElementOffset(L::cast<L::ConstantInt>(gti.getOperand())->getZExtValue());
                    } else {
                        int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto* CI = L::dyn_cast<L::ConstantInt>(gti.getOperand())) ki.gepC += CI->getSExtValue() * sc;
                        else ki.gepV.push_back({oi, sc});
                    }
                }
            }
            if (auto* CB = L::dyn_cast<L::CallBase>(&I)) {
                auto* CV = CB->getCalledOperand()->stripPointerCasts();
                if (auto* GA = L::dyn_cast<L::GlobalAlias>(CV)) CV = GA->getAliaseeObject();
                if (auto* CF = L::dyn_cast<L::Function>(CV)) ki.callee = redirect(CF);
                if (auto* II = L::dyn_cast<L::InvokeInst>(&I)) { ki.blk0 = bidx[II->getNormalDest()]; ki.blk1 = bidx[II->getUnwindDest()]; }
            }
            if (auto* BI = L::dyn_cast<L::BranchInst>(&I)) { ki.blk0 = bidx[BI->getSuccessor(0)]; if (BI->isConditional()) ki.blk1 = bidx[BI->getSuccessor(1)]; }
            K->code.push_back(std::move(ki));
        }
        K->blocks.push_back(kb);
    }
    return K;
}
static std::unordered_map<const L::BasicBlock*, int> blkIdxCache;
static int blockIndex(L::BasicBlock* B) {
    auto it = blkIdxCache.find(B); if (it != blkIdxCache.end()) return it->second;
    int i = 0; for (auto& X : *B->getParent()) blkIdxCache[&X] = i++;
    return blkIdxCache[B];
}

// ---------------------------------------------------------------- state
struct Frame {
    KFunc* kf = nullptr;
    std::vector<Val> regs;
    unsigned pc = 0;         // next instruction
    L::BasicBlock* prev = nullptr;
    std::vector<uint32_t> allocas;
};
struct Exc { uint64_t obj = 0; const L::GlobalValue* ti = nullptr; uint64_t tiAddr = 0; };
struct Thread { std::vector<Frame> stack; Exc inflight; std::vector<Exc> caught; bool done = false; };
struct SymInput { std::string name; uint32_t firstVar, n; };
struct State {
    std::vector<Thread> th; int cur = 0;
    Mem mem;
    std::vector<Expr*> cons; std::unordered_set<Expr*> consSet;
    Assign model;
    Known known;
    std::unordered_map<Expr*, uint64_t> conc;
    std::vector<SymInput> inputs;
    std::vector<Val> trace;
    uint32_t nextVar = 0;
    uint64_t instrs = 0; int64_t heapLive = 0;
    unsigned depth = 0;
    unsigned nChoices = 0; uint64_t choiceHash = 0;
    Frame& top() { return th[cur].stack.back(); }
};
using StateP = std::unique_ptr<State>;

// ---------------------------------------------------------------- options / results
static double maxTime = 120; static uint64_t maxPaths = 20000000; static uint64_t maxInstr = 50000000; static unsigned maxViol = 20;
static uint64_t allocMax = 1 << 20;
static unsigned maxEnum = 4096;
// the search tree is divided by the first shardDepth choices of the harness; every path belongs to at least one shard
static unsigned shardIdx = 0, shardNum = 1, shardDepth = 5;
static std::string outDir = ".";
static unsigned dumpPaths = 0;
static bool verbose = false;

struct Violation { std::string kind, msg, where; std::vector<std::string> stack; std::string file; };
static std::vector<Violation> violations; static std::set<std::string> violSeen;
static std::vector<std::string> incomplete; static std::set<std::string> incompleteSeen;
static std::map<std::string, uint64_t> reached;
static std::map<std::string, std::pair<uint64_t, uint64_t>> asserts; // msg -> (instances, by solver)
static uint64_t nPaths = 0, nForks = 0, nInstr = 0, nKilled = 0, nMemChecks = 0, nSymMem = 0, nEnum = 0, nDumped = 0;
static std::vector<StateP> work;
static std::chrono::steady_clock::time_point t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

struct PathEnd {};           // the current path ends here
struct Unwound {};           // control was transferred by an exception

static std::string locOf(State& s) {
    auto& st = s.th[s.cur].stack; std::string first;
    for (int i = (int)st.size() - 1; i >= 0; --i) {
        auto& f = st[i]; unsigned pc = f.pc ? f.pc - 1 : 0;
        if (pc >= f.kf->code.size()) continue;
        auto& dl = f.kf->code[pc].I->getDebugLoc();
        if (!dl) continue;
        std::string file = dl->getFilename().str();
        std::string l = file + ":" + std::to_string(dl.getLine());
        if (first.empty()) first = l + " " + f.kf->pretty;
        if (file.find("/src/app/") != std::string::npos) return l + " " + f.kf->pretty;
    }
    return first;
}
static std::vector<std::string> stackOf(State& s) {
    std::vector<std::string> r; auto& st = s.th[s.cur].stack;
    for (int i = (int)st.size() - 1; i >= 0 && r.size() < 60; --i) {
        auto& f = st[i]; unsigned pc = f.pc ? f.pc - 1 : 0; std::string l;
        if (pc < f.kf->code.size()) if (auto& dl = f.kf->code[pc].I->getDebugLoc()) l = dl->getFilename().str() + ":" + std::to_string(dl.getLine());
        r.push_back(f.kf->pretty.substr(0, 160) + " @ " + l);
    }
    return r;
}
static void addIncomplete(const std::string& s) { if (incompleteSeen.insert(s).second) { incomplete.push_back(s); if (verbose) fprintf(stderr, "INCOMPLETE: %s\n", s.c_str()); } }

static void writeInputs(State& s, const Assign& m, const std::string& file) {
    std::ofstream f(file);
    for (auto& in : s.inputs) {
        f << in.name << " " << in.n << " ";
        for (uint32_t i = 0; i < in.n; ++i) { uint32_t v = in.firstVar + i; char b[4]; snprintf(b, 4, "%02x", v < m.size() ? m[v] : 0); f << b; }
        f << "\n";
    }
}
static void report(State& s, const Assign& m, const std::string& kind, const std::string& msg) {
    std::string where = kind == "assert" ? "" : locOf(s);
    std::string key = kind + "|" + msg + "|" + where;
    if (violations.size() >= maxViol) return;
    if (!violSeen.insert(key).second) return;
    Violation v{kind, msg, where.empty() ? locOf(s) : where, stackOf(s), outDir + "/cex" + std::to_string(violations.size()) + ".in"};
    writeInputs(s, m, v.file);
    if (verbose) { fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str()); for (auto& l : v.stack) fprintf(stderr, "    %s\n", l.c_str()); }
    violations.push_back(v);
}
[[noreturn]] static void die(State& s, const std::string& kind, const std::string& msg) { report(s, s.model, kind, msg); throw PathEnd(); }
[[noreturn]] static void giveUp(State& s, const std::string& why) { addIncomplete(why + " at " + locOf(s)); nKilled++; throw PathEnd(); }

// ---------------------------------------------------------------- constraints
static void addCons(State& s, Expr* e) {
    if (isC(e)) return;
    if (e->op == Op::And && e->width == 1) { addCons(s, e->a); addCons(s, e->b); return; }
    if (!s.consSet.insert(e).second) return;
    s.cons.push_back(e);
    if (e->op == Op::Eq && isC(e->b)) {
        if (e->a->op == Op::Var) s.known[(uint32_t)e->a->val] = (uint8_t)e->b->val;
    }
}
static Expr* simp(State& s, Expr* e) {
    if (isC(e)) return e;
    e = substitute(e, s.known);
    if (isC(e)) return e;
    if (e->width == 1) {
        if (s.consSet.count(e)) return mkTrue();
        if (s.consSet.count(mkNot(e))) return mkFalse();
    }
    return e;
}
// feasibility of c under the state; fills model when feasible
static bool feasible(State& s, Expr* c, Assign& m) {
    c = simp(s, c);
    if (isC(c)) { if (c->val) m = s.model; return c->val != 0; }
    uint64_t v = evalExpr(c, s.model);
    if (v && !evalInvalid) { solverStats.modelHits++; m = s.model; return true; }
    m = s.model;
    Res r = solve(s.cons, c, m);
    if (r == Res::Unknown) giveUp(s, "solver returned unknown");
    return r == Res::Sat;
}
static void pushState(StateP st) { work.push_back(std::move(st)); }

// fork so that another copy re-executes the current instruction under `cond`
static void forkReexec(State& s, Expr* cond, Assign&& m) {
    auto n = std::make_unique<State>(s);
    n->top().pc--; n->model = std::move(m);
    addCons(*n, cond); n->depth++;
    nForks++;
    pushState(std::move(n));
}
static bool mustFork(State& s, Expr* c, bool& taken);
// decide a symbolic condition, forking when both sides are feasible (other side re-executes the instruction)
static bool decide(State& s, Expr* c) {
    c = simp(s, c);
    if (isC(c)) return c->val;
    uint64_t v = evalExpr(c, s.model) & 1; bool inval = evalInvalid;
    Assign mo;
    if (inval) {
        bool ft = false; Assign mt = s.model; Res r = solve(s.cons, c, mt); if (r == Res::Unknown) giveUp(s, "solver unknown"); ft = r == Res::Sat;
        if (!ft) { addCons(s, mkNot(c)); return false; }
        Assign mf = s.model; r = solve(s.cons, mkNot(c), mf); if (r == Res::Unknown) giveUp(s, "solver unknown");
        if (r == Res::Sat) forkReexec(s, mkNot(c), std::move(mf));
        s.model = mt; addCons(s, c); return true;
    }
    Expr* other = v ? mkNot(c) : c;
    mo = s.model;
    Res r = solve(s.cons, other, mo);
    if (r == Res::Unknown) giveUp(s, "solver returned unknown");
    if (r == Res::Sat) forkReexec(s, other, std::move(mo));
    addCons(s, v ? c : mkNot(c));
    return v;
}
static uint64_t concretize(State& s, const Val& v0, const char* what) {
    if (v0.isC()) return v0.c;
    auto it = s.conc.find(v0.e); if (it != s.conc.end()) return it->second;
    Expr* e = simp(s, v0.e);
    if (isC(e)) return e->val;
    // fix the value an expression is computed from, so that everything else computed from it becomes concrete too
    {
        Expr* in = e; bool down = true;
        while (down) switch (in->op) {
            case Op::ZExt: case Op::SExt: in = in->a; break;
            case Op::Add: case Op::Sub: case Op::Mul: case Op::Shl:
                if (in->b && isC(in->b)) in = in->a; else if (in->a && isC(in->a)) in = in->b; else down = false;
                break;
            default: down = false;
        }
        if (in != e && !isC(in) && in->width <= 64) {
            concretize(s, VE(in), what);
            Expr* e2 = simp(s, e);
            if (isC(e2)) { s.conc[v0.e] = e2->val; return e2->val; }
            e = e2;
        }
    }
    if (e->width > 64) giveUp(s, "concretize wide value");
    uint64_t v = evalExpr(e, s.model); if (evalInvalid) giveUp(s, "cannot evaluate value");
    Expr* eq = mkCmp(Op::Eq, e, mkConst(v, e->width));
    Assign m = s.model;
    Res r = solve(s.cons, mkNot(eq), m);
    if (r == Res::Unknown) giveUp(s, "solver returned unknown");
    if (r == Res::Sat) { nEnum++; forkReexec(s, mkNot(eq), std::move(m)); }
    addCons(s, eq);
    s.conc[v0.e] = v;
    // byte-wise knowledge
    (void)what;
    return v;
}

// ---------------------------------------------------------------- memory access
struct Loc { uint64_t id; uint64_t off; };
static std::string describe(State& s, uint64_t a, uint64_t n, const char* op) {
    char b[200]; uint64_t id = (a >> ADDR_SHIFT) - 1;
    if (a < (1u << ADDR_SHIFT)) { snprintf(b, 200, "%s of %lu byte(s) through null/invalid pointer", op, (unsigned long)n); return b; }
    uint8_t st = s.mem.status(id);
    if (st == 2) { snprintf(b, 200, "%s of freed memory", op); return b; }
    if (st == 0) { snprintf(b, 200, "%s through wild pointer", op); return b; }
    snprintf(b, 200, "out-of-bounds %s", op); return b;
}
static bool okRange(State& s, uint64_t a, uint64_t n, Loc& l) {
    if (a < (1u << ADDR_SHIFT)) return false;
    uint64_t id = (a >> ADDR_SHIFT) - 1; Obj* o = s.mem.get(id);
    if (!o) return false;
    uint64_t off = a & ((1u << ADDR_SHIFT) - 1);
    if (off > o->size || n > o->size - off) return false;
    l = {id, off}; return true;
}
static Loc resolve(State& s, const Val& p, uint64_t n, bool write) {
    nMemChecks++;
    Loc l;
    const char* op = write ? "write" : "read";
    if (p.isC()) {
        if (!okRange(s, p.c, n, l)) die(s, "memory", describe(s, p.c, n, op));
        if (write && s.mem.get(l.id)->ro) die(s, "memory", "write to read-only memory");
        return l;
    }
    auto it = s.conc.find(p.e);
    if (it != s.conc.end()) return resolve(s, VC(it->second, 64), n, write);
    Expr* e = simp(s, p.e);
    if (isC(e)) return resolve(s, VE(e), n, write);
    nSymMem++;
    uint64_t v = evalExpr(e, s.model); if (evalInvalid) giveUp(s, "cannot evaluate address");
    if (!okRange(s, v, n, l)) {
        // report with the current model, then continue on the valid part around the base object, if any
        report(s, s.model, "memory", describe(s, v, n, op));
        uint64_t base = 0; Expr* t = e;
        if (t->op == Op::Add && isC(t->b)) base = t->b->val;
        uint64_t cand = base ? base : v;
        uint64_t id = (cand >> ADDR_SHIFT) - 1; Obj* o = cand >= (1u << ADDR_SHIFT) ? s.mem.get(id) : nullptr;
        if (o && o->size >= n) {
            Expr* in = mkBin(Op::And, mkCmp(Op::Ule, mkConst(addrOf(id), 64), e), mkCmp(Op::Ule, e, mkConst(addrOf(id) + o->size - n, 64)));
            Assign m = s.model; Res r = solve(s.cons, in, m);
            if (r == Res::Sat) forkReexec(s, in, std::move(m));
        }
        throw PathEnd();
    }
    Obj* o = s.mem.get(l.id);
    Expr* in = mkBin(Op::And, mkCmp(Op::Ule, mkConst(addrOf(l.id), 64), e), mkCmp(Op::Ule, e, mkConst(addrOf(l.id) + o->size - n, 64)));
    Assign m = s.model; Res r = solve(s.cons, mkNot(in), m);
    if (r == Res::Unknown) giveUp(s, "solver returned unknown");
    if (r == Res::Sat) { forkReexec(s, mkNot(in), std::move(m)); addCons(s, in); }
    uint64_t a = concretize(s, VE(e), "address");
    s.conc[p.e] = a;
    return resolve(s, VC(a, 64), n, write);
}
static Val loadMem(State& s, const Val& p, unsigned bits) {
    unsigned n = (bits + 7) / 8;
    if (!p.isC()) {
        // small constant tables: build a selection instead of forking
        Expr* e = simp(s, p.e);
        if (!isC(e) && !s.conc.count(p.e)) {
            uint64_t v = evalExpr(e, s.model); Loc l;
            if (!evalInvalid && okRange(s, v, n, l)) {
                Obj* o = s.mem.get(l.id);
                if (o->size <= 1024 && n && o->size / n <= 256 && o->kind == KGlobal && o->ro) {
                    Expr* base = mkConst(addrOf(l.id), 64);
                    Expr* off = mkBin(Op::Sub, e, base);
                    Expr* in = mkCmp(Op::Ule, off, mkConst(o->size - n, 64));
                    Expr* al = n == 1 ? mkTrue() : mkCmp(Op::Eq, mkBin(Op::URem, off, mkConst(n, 64)), mkConst(l.off % n, 64));
                    Assign m = s.model;
                    if (solve(s.cons, mkNot(mkBin(Op::And, in, al)), m) == Res::Unsat) {
                        nSymMem++;
                        Expr* r = nullptr;
                        for (uint64_t k = l.off % n; k + n <= o->size; k += n) {
                            Expr* x = rdN(o, k, bits).ex();
                            r = r ? mkIte(mkCmp(Op::Eq, off, mkConst(k, 64)), x, r) : x;
                        }
                        return VE(r);
                    }
                }
            }
        }
    }
    Loc l = resolve(s, p, n, false);
    return rdN(s.mem.get(l.id), l.off, bits);
}
static void storeMem(State& s, const Val& p, const Val& v, unsigned bits) {
    Loc l = resolve(s, p, (bits + 7) / 8, true);
    wrN(s.mem.getW(l.id), l.off, v, bits);
}
static std::string cstr(State& s, const Val& p, size_t maxn = 400) {
    std::string r; uint64_t a = concretize(s, p, "cstr"); Loc l;
    if (!okRange(s, a, 1, l)) return "<bad>";
    Obj* o = s.mem.get(l.id);
    for (uint64_t i = l.off; i < o->size && r.size() < maxn; ++i) { Val b = rdByte(o, i); if (!b.isC() || !b.c) break; r += (char)b.c; }
    return r;
}
static void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    Loc ls = resolve(s, VC(src, 64), n, false), ld = resolve(s, VC(dst, 64), n, true);
    Obj* d = s.mem.getW(ld.id); Obj* so = s.mem.get(ls.id);
    if (ls.id == ld.id && ls.off < ld.off) { for (uint64_t i = n; i-- > 0;) { Val b = rdByte(d, ls.off + i); if (b.isC()) wrByteC(d, ld.off + i, (uint8_t)b.c); else wrByteE(d, ld.off + i, b.e); } return; }
    // fast path: whole pages
    uint64_t i = 0;
    while (i < n) {
        if (ls.id != ld.id && (ls.off + i) % PB == 0 && (ld.off + i) % PB == 0 && n - i >= PB && d->fill == so->fill) {
            d->pages[(ld.off + i) / PB] = so->pages[(ls.off + i) / PB]; i += PB; continue;
        }
        Val b = rdByte(so, ls.off + i);
        if (b.isC()) wrByteC(d, ld.off + i, (uint8_t)b.c); else wrByteE(d, ld.off + i, b.e);
        ++i;
    }
}

// ---------------------------------------------------------------- exceptions
static const std::map<std::string, std::string> stdBases = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"},
};
static const L::GlobalValue* tiByName(const std::string& n) { return M->getNamedValue(n); }
static bool derives(const std::string& a, const std::string& b);
static bool derivesGV(const L::GlobalVariable* G, const std::string& b) {
    if (G->getName() == b) return true;
    if (G->hasInitializer()) {
        auto* C = G->getInitializer();
        for (unsigned i = 2; i < C->getNumOperands(); ++i) {
            auto* O = C->getOperand(i)->stripPointerCasts();
            if (auto* B = L::dyn_cast<L::GlobalVariable>(O)) if (derivesGV(B, b)) return true;
        }
        return false;
    }
    return derives(G->getName().str(), b);
}
static bool derives(const std::string& a, const std::string& b) {
    if (a == b) return true;
    if (auto* G = M->getGlobalVariable(a, true)) if (G->hasInitializer()) return derivesGV(G, b);
    auto it = stdBases.find(a); if (it == stdBases.end()) return false;
    return derives(it->second, b);
}
static std::map<std::string, int> selIds;
static int selId(const std::string& n) { auto it = selIds.find(n); if (it != selIds.end()) return it->second; int k = (int)selIds.size() + 1; return selIds[n] = k; }

// returns selector (>0 handler, 0 cleanup only, -1 not interested)
static int lpMatch(L::LandingPadInst* LP, const std::string& ti) {
    for (unsigned i = 0; i < LP->getNumClauses(); ++i) {
        auto* C = LP->getClause(i)->stripPointerCasts();
        if (LP->isCatch(i)) {
            if (L::isa<L::ConstantPointerNull>(C)) return 0x7fffffff;
            if (auto* G = L::dyn_cast<L::GlobalVariable>(C)) if (derives(ti, G->getName().str())) return selId(G->getName().str());
        } else return 0x7ffffffe; // exception specification violated (filter)
    }
    return LP->isCleanup() ? 0 : -1;
}
static void popFrame(State& s) {
    auto& f = s.top(); for (auto id : f.allocas) s.mem.free(id);
    s.th[s.cur].stack.pop_back();
}
static void enterBlock(State& s, int b, L::BasicBlock* from);
[[noreturn]] static void unwind(State& s) {
    auto& th = s.th[s.cur];
    std::string ti = th.inflight.ti ? th.inflight.ti->getName().str() : "";
    // phase 1: search
    bool found = false;
    for (int i = (int)th.stack.size() - 1; i >= 0 && !found; --i) {
        auto& f = th.stack[i]; auto& ki = f.kf->code[f.pc - 1];
        if (auto* II = L::dyn_cast<L::InvokeInst>(ki.I)) if (lpMatch(II->getLandingPadInst(), ti) > 0) found = true;
    }
    if (!found) die(s, "terminate", "exception " + L::demangle(ti) + " escapes every handler: std::terminate");
    for (;;) {
        auto& f = th.stack.back(); auto& ki = f.kf->code[f.pc - 1];
        if (auto* II = L::dyn_cast<L::InvokeInst>(ki.I)) {
            int m = lpMatch(II->getLandingPadInst(), ti);
            if (m >= 0) {
                int ub = ki.blk1; L::BasicBlock* from = II->getParent();
                enterBlock(s, ub, from);
                auto& nf = s.top();
                auto& lp = nf.kf->code[nf.pc];
                nf.regs[lp.dest] = VC(th.inflight.obj, 64); nf.regs[lp.dest + 1] = VC((uint64_t)(uint32_t)m, 32);
                nf.pc++;
                throw Unwound();
            }
        }
        popFrame(s);
    }
}
// library exception classes are opaque: give their objects a vtable whose entries exist
static void fakeVtable(State& s, uint64_t obj) {
    auto* V = M->getGlobalVariable("sym_exc_vtable", true);
    Loc l;
    if (!V || !okRange(s, obj, 8, l)) return;
    Val v = rdN(s.mem.get(l.id), l.off, 64);
    bool opaque = v.isC() && v.c == 0;
    if (v.isC() && v.c) for (auto& [g, ad] : gaddr) if (ad + 16 == v.c) { auto* G = L::dyn_cast<L::GlobalVariable>(g); opaque = G && G->isDeclaration() && G->getName().starts_with("_ZTVSt"); break; }
    if (opaque) wrN(s.mem.getW(l.id), l.off, VC(gaddr[V], 64), 64);
}
[[noreturn]] static void throwStd(State& s, const char* tiName) {
    auto* G = tiByName(tiName);
    uint64_t id = s.mem.alloc(64, KExc, 0, nullptr);
    auto& th = s.th[s.cur];
    if (!G) {
        G = new L::GlobalVariable(*M, L::Type::getInt8Ty(LC), true, L::GlobalValue::ExternalLinkage, nullptr, tiName);
    }
    th.inflight = {addrOf(id), G, 0};
    fakeVtable(s, addrOf(id));
    unwind(s);
}

// ---------------------------------------------------------------- execution
static void enterBlock(State& s, int b, L::BasicBlock* from) {
    Frame& f = s.top(); KBlock& kb = f.kf->blocks[b];
    if (kb.nphi) {
        std::vector<std::pair<int, Val>> tmp;
        for (unsigned i = 0; i < kb.nphi; ++i) {
            KInst& ki = f.kf->code[kb.start + i]; auto* P = L::cast<L::PHINode>(ki.I);
            int k = P->getBasicBlockIndex(from);
            Opnd o = ki.ops[k];
            for (size_t j = 0; j < ki.ty->leaves.size(); ++j) tmp.push_back({ki.dest + (int)j, o.base >= 0 ? f.regs[o.base + j] : cpool[-1 - o.base + j]});
        }
        for (auto& t : tmp) f.regs[t.first] = t.second;
    }
    f.prev = from; f.pc = kb.start + kb.nphi;
}

static inline const Val& opv(State& s, Frame& f, const KInst& ki, unsigned i, unsigned k = 0) {
    Opnd o = ki.ops[i]; return o.base >= 0 ? f.regs[o.base + k] : cpool[-1 - o.base + k];
}

static Val binop(State& s, unsigned opc, const Val& a, const Val& b) {
    Op op;
    switch (opc) {
    case L::Instruction::Add: op = Op::Add; break; case L::Instruction::Sub: op = Op::Sub; break; case L::Instruction::Mul: op = Op::Mul; break;
    case L::Instruction::UDiv: op = Op::UDiv; break; case L::Instruction::SDiv: op = Op::SDiv; break; case L::Instruction::URem: op = Op::URem; break; case L::Instruction::SRem: op = Op::SRem; break;
    case L::Instruction::And: op = Op::And; break; case L::Instruction::Or: op = Op::Or; break; case L::Instruction::Xor: op = Op::Xor; break;
    case L::Instruction::Shl: op = Op::Shl; break; case L::Instruction::LShr: op = Op::LShr; break; case L::Instruction::AShr: op = Op::AShr; break;
    default: giveUp(s, "binop");
    }
    if (op == Op::UDiv || op == Op::SDiv || op == Op::URem || op == Op::SRem) {
        Expr* z = mkCmp(Op::Eq, b.ex(), mkConst(0, b.w));
        if (decide(s, z)) die(s, "arith", "division by zero");
    }
    if (a.isC() && b.isC()) { uint64_t r; if (evalConstBin(op, a.c, b.c, a.w, r)) return VC(r, a.w); }
    return VE(mkBin(op, a.ex(), b.ex()));
}
static Val icmp(unsigned pred, const Val& a, const Val& b) {
    using P = L::CmpInst;
    Op op; bool swap = false, neg = false;
    switch (pred) {
    case P::ICMP_EQ: op = Op::Eq; break; case P::ICMP_NE: op = Op::Eq; neg = true; break;
    case P::ICMP_ULT: op = Op::Ult; break; case P::ICMP_ULE: op = Op::Ule; break; case P::ICMP_UGT: op = Op::Ult; swap = true; break; case P::ICMP_UGE: op = Op::Ule; swap = true; break;
    case P::ICMP_SLT: op = Op::Slt; break; case P::ICMP_SLE: op = Op::Sle; break; case P::ICMP_SGT: op = Op::Slt; swap = true; break; default: op = Op::Sle; swap = true; break;
    }
    const Val &x = swap ? b : a, &y = swap ? a : b;
    if (x.isC() && y.isC()) return VC(evalConstCmp(op, x.c, y.c, x.w) != neg, 1);
    Expr* e = mkCmp(op, x.ex(), y.ex());
    return VE(neg ? mkNot(e) : e);
}
static Expr* fcmpE(State& s, unsigned pred, Expr* a, Expr* b) {
    using P = L::CmpInst;
    auto eq = [&] { return mkFP(Op::FOeq, a, b, 1); }; auto lt = [&] { return mkFP(Op::FOlt, a, b, 1); }; auto le = [&] { return mkFP(Op::FOle, a, b, 1); };
    auto gt = [&] { return mkFP(Op::FOlt, b, a, 1); }; auto ge = [&] { return mkFP(Op::FOle, b, a, 1); }; auto un = [&] { return mkFP(Op::FUno, a, b, 1); };
    auto OR = [&](Expr* x, Expr* y) { return mkBin(Op::Or, x, y); };
    switch (pred) {
    case P::FCMP_FALSE: return mkFalse(); case P::FCMP_TRUE: return mkTrue();
    case P::FCMP_OEQ: return eq(); case P::FCMP_OLT: return lt(); case P::FCMP_OLE: return le(); case P::FCMP_OGT: return gt(); case P::FCMP_OGE: return ge();
    case P::FCMP_ONE: return mkBin(Op::And, mkNot(eq()), mkNot(un())); case P::FCMP_ORD: return mkNot(un()); case P::FCMP_UNO: return un();
    case P::FCMP_UEQ: return OR(un(), eq()); case P::FCMP_ULT: return OR(un(), lt()); case P::FCMP_ULE: return OR(un(), le()); case P::FCMP_UGT: return OR(un(), gt()); case P::FCMP_UGE: return OR(un(), ge());
    case P::FCMP_UNE: return mkNot(eq());
    }
    giveUp(s, "fcmp");
}

static const size_t maxFrames = 10000;
static void pushCall(State& s, KFunc* kf, const std::vector<Val>& args) {
    if (s.th[s.cur].stack.size() > maxFrames) {
        // unbounded recursion driven by input: report with the current model
        die(s, "stack", "call depth above 10000 frames (unbounded recursion)");
    }
    kf->executed = true;
    Frame nf; nf.kf = kf; nf.regs.resize(kf->nregs);
    size_t n = 0; for (auto& a : kf->args) n += a.second;
    for (size_t i = 0; i < n && i < args.size(); ++i) nf.regs[i] = args[i];
    nf.pc = kf->blocks[0].start;
    s.th[s.cur].stack.push_back(std::move(nf));
}
static void setRet(State& s, const KInst& ki, const Val& v) { if (ki.dest >= 0) { Val x = v; unsigned w = ki.ty->leaves[0].w; if (x.w != w) { if (x.isC()) x = VC(x.c, w); else x = VE(x.w > w ? mkExtract(x.e, 0, w) : mkZExt(x.e, w)); } s.top().regs[ki.dest] = x; } }
static void afterCall(State& s, const KInst& ki) { if (auto* II = L::dyn_cast<L::InvokeInst>(ki.I)) enterBlock(s, ki.blk0, II->getParent()); }

static uint64_t errnoAddr = 0;
using BFn = std::function<void(State&, const KInst&, std::vector<Val>&)>;
static std::vector<BFn> builtins;
static void reg(const char* n, BFn f) { builtinIdx[n] = (int)builtins.size(); builtins.push_back(std::move(f)); }

static uint64_t allocSize(State& s, const Val& v) {
    if (!v.isC()) {
        Expr* big = mkCmp(Op::Ult, mkConst(allocMax, 64), v.w == 64 ? v.ex() : mkZExt(v.ex(), 64));
        Assign m;
        if (!isC(simp(s, big)) || simp(s, big)->val) {
            if (feasible(s, big, m)) {
                Assign keep = s.model; s.model = m; report(s, m, "alloc", "allocation size beyond 1 MiB controlled by input"); s.model = keep;
                Expr* ok = mkNot(big); Assign m2; if (!feasible(s, ok, m2)) throw PathEnd();
                s.model = m2; addCons(s, ok);
            }
        }
    }
    uint64_t n = concretize(s, v, "alloc size");
    if (n > allocMax * 8) die(s, "alloc", "allocation size beyond 8 MiB");
    return n;
}
static void doFree(State& s, const Val& p, bool isDelete) {
    uint64_t a = concretize(s, p, "free");
    if (!a) return;
    uint64_t id = (a >> ADDR_SHIFT) - 1;
    if (a < (1u << ADDR_SHIFT) || (a & ((1u << ADDR_SHIFT) - 1))) die(s, "memory", "free of a pointer that was not allocated");
    uint8_t st = s.mem.status(id);
    if (st == 2) die(s, "memory", "double free");
    Obj* o = s.mem.get(id);
    if (!o || o->kind != KHeap) die(s, "memory", "free of a pointer that was not allocated");
    s.mem.free(id); s.heapLive--;
}
static Val memcmpE(State& s, uint64_t a, uint64_t b, uint64_t n, bool onlyEq) {
    if (!n) return VC(0, 32);
    Loc la = resolve(s, VC(a, 64), n, false), lb = resolve(s, VC(b, 64), n, false);
    Obj *oa = s.mem.get(la.id), *ob = s.mem.get(lb.id);
    Expr* r = mkConst(0, 32);
    for (uint64_t i = n; i-- > 0;) {
        Val x = rdByte(oa, la.off + i), y = rdByte(ob, lb.off + i);
        if (x.isC() && y.isC()) { if (x.c != y.c) r = mkConst(onlyEq ? 1 : (uint64_t)(int64_t)((int)x.c - (int)y.c), 32); continue; }
        Expr* eq = mkCmp(Op::Eq, x.ex(), y.ex());
        if (isC(eq) && eq->val) continue;
        Expr* d = onlyEq ? mkConst(1, 32) : mkBin(Op::Sub, mkZExt(x.ex(), 32), mkZExt(y.ex(), 32));
        r = mkIte(eq, r, d);
    }
    return VE(r);
}

static void doAssert(State& s, Expr* c, const std::string& msg) {
    auto& st = asserts[msg]; st.first++;
    c = simp(s, c);
    if (isC(c)) { if (c->val) return; die(s, "assert", msg); }
    st.second++;
    Assign m = s.model;
    bool bad;
    uint64_t v = evalExpr(c, s.model) & 1;
    if (!evalInvalid && !v) bad = true;
    else {
        Res r = solve(s.cons, mkNot(c), m);
        if (r == Res::Unknown) giveUp(s, "solver returned unknown on assertion " + msg);
        bad = r == Res::Sat;
    }
    if (!bad) return;
    report(s, m, "assert", msg);
    Assign m2; if (!feasible(s, c, m2)) throw PathEnd();
    s.model = m2; addCons(s, c);
}

static void initBuiltins() {
    auto A = [](State& s, const Val& v) { return concretize(s, v, "arg"); };
    auto mallocLike = [](State& s, const KInst& ki, std::vector<Val>& a) { uint64_t n = allocSize(s, a[0]); uint64_t id = s.mem.alloc(n, KHeap, 0xAA, ki.I); s.heapLive++; setRet(s, ki, VC(addrOf(id), 64)); };
    for (auto n : {"malloc", "_Znwm", "_Znam"}) reg(n, mallocLike);
    reg("_ZnwmSt11align_val_t", mallocLike); reg("_ZnamSt11align_val_t", mallocLike); reg("_ZnwmRKSt9nothrow_t", mallocLike); reg("_ZnamRKSt9nothrow_t", mallocLike);
    reg("calloc", [](State& s, const KInst& ki, std::vector<Val>& a) { uint64_t n = concretize(s, a[0], "calloc") * concretize(s, a[1], "calloc"); if (n > allocMax * 8) die(s, "alloc", "calloc too big"); uint64_t id = s.mem.alloc(n, KHeap, 0, ki.I); s.heapLive++; setRet(s, ki, VC(addrOf(id), 64)); });
    reg("realloc", [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t p = concretize(s, a[0], "realloc"); uint64_t n = allocSize(s, a[1]);
        uint64_t id = s.mem.alloc(n, KHeap, 0xAA, ki.I); s.heapLive++;
        if (p) { Loc l; if (!okRange(s, p, 0, l)) die(s, "memory", "realloc of an invalid pointer"); uint64_t k = std::min(n, s.mem.get(l.id)->size); copyMem(s, addrOf(id), p, k); doFree(s, VC(p, 64), false); }
        setRet(s, ki, VC(addrOf(id), 64)); });
    for (auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) reg(n, [](State& s, const KInst&, std::vector<Val>& a) { doFree(s, a[0], true); });
    auto memcpyF = [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t n = concretize(s, a[2], "memcpy length"); 
        uint64_t d = concretize(s, a[0], "memcpy dst"), so = concretize(s, a[1], "memcpy src");
        copyMem(s, d, so, n); if (ki.dest >= 0) setRet(s, ki, VC(d, 64)); };
    reg("memcpy", memcpyF); reg("memmove", memcpyF);
    reg("memset", [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t n = concretize(s, a[2], "memset length"); uint64_t d = concretize(s, a[0], "memset dst");
        if (n) {
            Loc l = resolve(s, VC(d, 64), n, true); Obj* o = s.mem.getW(l.id); Val v = a[1];
            if (v.isC()) {
                uint64_t i = 0;
                while (i < n) {
                    if ((l.off + i) % PB == 0 && n - i >= PB) { auto p = std::make_shared<Page>(); memset(p->d, (int)v.c, PB); o->pages[(l.off + i) / PB] = p; i += PB; }
                    else { wrByteC(o, l.off + i, (uint8_t)v.c); ++i; }
                }
            } else { Expr* b = mkExtract(v.ex(), 0, 8); for (uint64_t i = 0; i < n; ++i) wrByteE(o, l.off + i, b); }
        }
        if (ki.dest >= 0) setRet(s, ki, VC(d, 64)); });
    reg("memcmp", [](State& s, const KInst& ki, std::vector<Val>& a) { uint64_t n = concretize(s, a[2], "memcmp"), x = concretize(s, a[0], ""), y = concretize(s, a[1], ""); setRet(s, ki, memcmpE(s, x, y, n, false)); });
    reg("bcmp", [](State& s, const KInst& ki, std::vector<Val>& a) { uint64_t n = concretize(s, a[2], "memcmp"), x = concretize(s, a[0], ""), y = concretize(s, a[1], ""); setRet(s, ki, memcmpE(s, x, y, n, true)); });
    reg("strlen", [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t p = concretize(s, a[0], "strlen"); uint64_t n = 0;
        for (;; ++n) { Val b = loadMem(s, VC(p + n, 64), 8); if (b.isC()) { if (!b.c) break; } else if (decide(s, mkCmp(Op::Eq, b.e, mkConst(0, 8)))) break; }
        setRet(s, ki, VC(n, 64)); });
    reg("memchr", [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t p = concretize(s, a[0], "memchr"), n = concretize(s, a[2], "memchr"); Val ch = a[1]; uint64_t r = 0;
        for (uint64_t i = 0; i < n; ++i) { Val b = loadMem(s, VC(p + i, 64), 8); Expr* e = mkCmp(Op::Eq, b.ex(), mkExtract(ch.ex(), 0, 8)); if (decide(s, e)) { r = p + i; break; } }
        setRet(s, ki, VC(r, 64)); });
    // formatted output: exact for fixed values, a symbolic number is written as its longest form would need
    auto fmtF = [](State& s, const KInst& ki, std::vector<Val>& a, size_t fi, uint64_t cap) {
        std::string f = cstr(s, a[fi]), out; size_t ai = fi + 1;
        for (size_t i = 0; i < f.size(); ++i) {
            if (f[i] != '%') { out += f[i]; continue; }
            std::string spec = "%"; ++i; int lng = 0;
            while (i < f.size() && strchr("-+ #0123456789.lhzjt*", f[i])) {
                if (f[i] == '*') { spec += std::to_string(ai < a.size() ? (int)concretize(s, a[ai], "format") : 0); ++ai; }
                else if (strchr("lzjt", f[i])) ++lng; else if (f[i] != 'h') spec += f[i];
                ++i;
            }
            if (i >= f.size()) break;
            char c = f[i];
            if (c == '%') { out += '%'; continue; }
            if (ai >= a.size()) break;                    // nothing was passed for it
            Val v = a[ai++]; char b[512];
            if (c == 's') {
                uint64_t p = concretize(s, v, "format"), n = 0, lim = ~0ull; std::string t;
                auto dot = spec.find('.'); if (dot != std::string::npos) lim = strtoull(spec.c_str() + dot + 1, nullptr, 10);
                for (; n < lim; ++n) { Val x = loadMem(s, VC(p + n, 64), 8); if (x.isC()) { if (!x.c) break; t += (char)x.c; } else { if (decide(s, mkCmp(Op::Eq, x.e, mkConst(0, 8)))) break; t += '?'; } }
                long w = strtol(spec.c_str() + (spec.size() > 1 && spec[1] == '-' ? 2 : 1), nullptr, 10);
                while (w > 0 && t.size() < (size_t)w && w < 4096) t += ' ';
                out += t;
            } else if (strchr("diuxXoc", c)) {
                uint64_t x = v.isC() ? v.c : c == 'c' ? 'x' : (v.w >= 64 ? ~0ull >> 1 : 0x7fffffffull);
                if (c == 'c') snprintf(b, sizeof b, (spec + "c").c_str(), (int)x);
                else if (lng || v.w > 32) snprintf(b, sizeof b, (spec + "ll" + c).c_str(), (long long)x);
                else snprintf(b, sizeof b, (spec + c).c_str(), (int)x);
                out += b;
            } else if (c == 'p') out += "0x7fffffffffff";
            else out += "0.000000";
        }
        uint64_t d = concretize(s, a[0], "format"), k = out.size() + 1;
        if (k > cap) k = cap;
        if (k) {
            Loc l = resolve(s, VC(d, 64), k, true); Obj* o = s.mem.getW(l.id);
            for (uint64_t i = 0; i < k; ++i) wrByteC(o, l.off + i, i + 1 < k ? (uint8_t)out[i] : 0);
        }
        if (ki.dest >= 0) setRet(s, ki, VC(out.size(), 32)); };
    reg("sprintf", [fmtF](State& s, const KInst& ki, std::vector<Val>& a) { fmtF(s, ki, a, 1, ~0ull); });
    reg("snprintf", [fmtF](State& s, const KInst& ki, std::vector<Val>& a) { fmtF(s, ki, a, 2, concretize(s, a[1], "format")); });
    // --- harness interface
    reg("sym_make", [](State& s, const KInst&, std::vector<Val>& a) {
        uint64_t p = concretize(s, a[0], ""), n = concretize(s, a[1], ""); std::string nm = cstr(s, a[2]);
        if (!n) return;
        Loc l = resolve(s, VC(p, 64), n, true); Obj* o = s.mem.getW(l.id);
        s.inputs.push_back({nm, s.nextVar, (uint32_t)n});
        for (uint64_t i = 0; i < n; ++i) wrByteE(o, l.off + i, mkVar(s.nextVar++));
    });
    reg("sym_assume_", [](State& s, const KInst&, std::vector<Val>& a) {
        Expr* c = simp(s, mkNot(mkCmp(Op::Eq, a[0].ex(), mkConst(0, a[0].w))));
        Assign m; if (!feasible(s, c, m)) { throw PathEnd(); }
        s.model = m; addCons(s, c); });
    reg("sym_assert_", [](State& s, const KInst&, std::vector<Val>& a) { std::string m = cstr(s, a[1]); doAssert(s, mkNot(mkCmp(Op::Eq, a[0].ex(), mkConst(0, a[0].w))), m); });
    reg("sym_reach", [](State& s, const KInst&, std::vector<Val>& a) { reached[cstr(s, a[0])]++; });
    reg("sym_concretize", [](State& s, const KInst& ki, std::vector<Val>& a) { 
        uint64_t v = concretize(s, a[0], "");
        if (shardNum > 1 && s.nChoices < shardDepth) {
            s.choiceHash = (s.choiceHash ^ (v + 0x9e3779b97f4a7c15ull)) * 0xff51afd7ed558ccdull; s.choiceHash ^= s.choiceHash >> 29;
            if (++s.nChoices == shardDepth && (s.choiceHash >> 8) % shardNum != shardIdx) throw PathEnd();
        }
        setRet(s, ki, VC(v, 64)); });
    reg("sym_native", [](State& s, const KInst& ki, std::vector<Val>&) { setRet(s, ki, VC(0, 32)); });
    reg("sym_end_path", [](State&, const KInst&, std::vector<Val>&) { nPaths++; throw PathEnd(); });
    reg("sym_check_read", [](State& s, const KInst&, std::vector<Val>& a) { uint64_t p = concretize(s, a[0], ""), n = concretize(s, a[1], ""); if (n) resolve(s, VC(p, 64), n, false); });
    reg("sym_check_write", [](State& s, const KInst&, std::vector<Val>& a) { uint64_t p = concretize(s, a[0], ""), n = concretize(s, a[1], ""); if (n) resolve(s, VC(p, 64), n, true); });
    reg("sym_live_heap", [](State& s, const KInst& ki, std::vector<Val>&) { setRet(s, ki, VC((uint64_t)s.heapLive, 64)); });
    reg("sym_trace", [](State& s, const KInst&, std::vector<Val>& a) { s.trace.push_back(a[0]); });
    reg("sym_print", [](State& s, const KInst&, std::vector<Val>& a) { if (verbose) { std::string m = cstr(s, a[0]); fprintf(stderr, "[print] %s %s\n", m.c_str(), a[1].isC() ? std::to_string(a[1].c).c_str() : toStr(a[1].e, 12).c_str()); } });
    reg("sym_thread_spawn", [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t fp = concretize(s, a[0], ""); uint64_t idx = fp / 16 - 1; if (fp % 16 || idx >= funcByIdx.size()) die(s, "memory", "call through invalid function pointer");
        KFunc* kf = kfunc(redirect(funcByIdx[idx]));
        int self = s.cur; s.th.emplace_back(); s.cur = (int)s.th.size() - 1; pushCall(s, kf, {a[1]}); int t = s.cur; s.cur = self;
        setRet(s, ki, VC((uint64_t)t, 32)); });
    reg("sym_switch_to", [](State& s, const KInst& ki, std::vector<Val>& a) { int t = (int)concretize(s, a[0], ""); afterCall(s, ki); if (t < 0 || t >= (int)s.th.size() || s.th[t].stack.empty()) giveUp(s, "bad thread switch"); s.cur = t; throw Unwound(); });
    reg("sym_self", [](State& s, const KInst& ki, std::vector<Val>&) { setRet(s, ki, VC((uint64_t)s.cur, 32)); });
    // --- C++ runtime
    reg("__cxa_allocate_exception", [](State& s, const KInst& ki, std::vector<Val>& a) { uint64_t id = s.mem.alloc(concretize(s, a[0], "") + 64, KExc, 0, ki.I); setRet(s, ki, VC(addrOf(id), 64)); });
    reg("__cxa_free_exception", [](State& s, const KInst&, std::vector<Val>&) {});
    reg("__cxa_throw", [](State& s, const KInst&, std::vector<Val>& a) {
        auto& th = s.th[s.cur]; th.inflight.obj = a[0].c; th.inflight.ti = nullptr;
        for (auto& [g, ad] : gaddr) if (ad == a[1].c) { th.inflight.ti = g; break; }
        fakeVtable(s, a[0].c);
        unwind(s); });
    reg("__cxa_begin_catch", [](State& s, const KInst& ki, std::vector<Val>& a) { auto& th = s.th[s.cur]; th.caught.push_back(th.inflight); setRet(s, ki, a[0]); });
    reg("__cxa_get_exception_ptr", [](State& s, const KInst& ki, std::vector<Val>& a) { setRet(s, ki, a[0]); });
    reg("__cxa_end_catch", [](State& s, const KInst&, std::vector<Val>&) { auto& th = s.th[s.cur]; if (!th.caught.empty()) th.caught.pop_back(); });
    reg("__cxa_rethrow", [](State& s, const KInst&, std::vector<Val>&) {
        auto& th = s.th[s.cur]; if (th.caught.empty()) die(s, "terminate", "rethrow without an active exception: std::terminate");
        th.inflight = th.caught.back(); unwind(s); });
    reg("__dynamic_cast", [](State& s, const KInst& ki, std::vector<Val>& a) {
        uint64_t src = concretize(s, a[0], "dynamic_cast");
        auto gvAt = [&](uint64_t ad) -> const L::GlobalVariable* { for (auto& [g, x] : gaddr) if (x == ad) return L::dyn_cast<L::GlobalVariable>(g); return nullptr; };
        auto word = [&](uint64_t ad) { Val v = loadMem(s, VC(ad, 64), 64); if (!v.isC()) giveUp(s, "dynamic_cast of a symbolic object"); return v.c; };
        const L::GlobalVariable* dst = gvAt(a[2].c);
        uint64_t vp = word(src); int64_t top = (int64_t)word(vp - 16); const L::GlobalVariable* ti = gvAt(word(vp - 8));
        if (!dst || !ti) giveUp(s, "dynamic_cast of an unknown type");
        uint64_t whole = src + (uint64_t)top; std::vector<uint64_t> hits;
        std::function<void(const L::GlobalVariable*, uint64_t)> walk = [&](const L::GlobalVariable* t, uint64_t at) {
            if (t == dst || t->getName() == dst->getName()) { if (std::find(hits.begin(), hits.end(), at) == hits.end()) hits.push_back(at); return; }
            if (!t->hasInitializer()) return;
            auto* C = t->getInitializer(); unsigned n = C->getNumOperands();
            if (n == 3) { if (auto* B = L::dyn_cast<L::GlobalVariable>(C->getOperand(2)->stripPointerCasts())) walk(B, at); }
            else for (unsigned i = 4; i + 1 < n; i += 2) {
                auto* B = L::dyn_cast<L::GlobalVariable>(C->getOperand(i)->stripPointerCasts()); auto* K = L::dyn_cast<L::ConstantInt>(C->getOperand(i + 1));
                if (!B || !K || !(K->getSExtValue() & 2)) continue;
                int64_t off = K->getSExtValue() >> 8; if (K->getSExtValue() & 1) off = (int64_t)word(word(at) + off);
                walk(B, at + off);
            }
        };
        walk(ti, whole);
        uint64_t r = 0; if (hits.size() == 1) r = hits[0]; else for (auto h : hits) if (h <= src && h > r) r = h;
        setRet(s, ki, VC(r, 64)); });
    reg("_ZSt19uncaught_exceptionsv", [](State& s, const KInst& ki, std::vector<Val>&) { auto& th = s.th[s.cur]; setRet(s, ki, VC(th.inflight.obj && (th.caught.empty() || th.caught.back().obj != th.inflight.obj) ? 1 : 0, 32)); });
    reg("_ZSt18uncaught_exceptionv", [](State& s, const KInst& ki, std::vector<Val>&) { auto& th = s.th[s.cur]; setRet(s, ki, VC(th.inflight.obj && (th.caught.empty() || th.caught.back().obj != th.inflight.obj) ? 1 : 0, 1)); });
    reg("_ZSt9terminatev", [](State& s, const KInst&, std::vector<Val>&) { die(s, "terminate", "std::terminate called"); });
    reg("__clang_call_terminate", [](State& s, const KInst&, std::vector<Val>&) { die(s, "terminate", "exception leaves a noexcept function: std::terminate"); });
    reg("__cxa_call_terminate", [](State& s, const KInst&, std::vector<Val>&) { die(s, "terminate", "exception leaves a noexcept function: std::terminate"); });
    reg("abort", [](State& s, const KInst&, std::vector<Val>&) { die(s, "abort", "abort called"); });
    reg("__assert_fail", [](State& s, const KInst&, std::vector<Val>& a) { die(s, "abort", "assert failed: " + cstr(s, a[0])); });
    reg("__cxa_pure_virtual", [](State& s, const KInst&, std::vector<Val>&) { die(s, "abort", "pure virtual call"); });
    reg("__cxa_guard_acquire", [](State& s, const KInst& ki, std::vector<Val>& a) { Val b = loadMem(s, a[0], 8); setRet(s, ki, VC(b.c ? 0 : 1, 32)); });
    reg("__cxa_guard_release", [](State& s, const KInst&, std::vector<Val>& a) { storeMem(s, a[0], VC(1, 8), 8); });
    reg("__cxa_guard_abort", [](State& s, const KInst&, std::vector<Val>&) {});
    reg("__cxa_atexit", [](State& s, const KInst& ki, std::vector<Val>&) { setRet(s, ki, VC(0, 32)); });
    reg("__errno_location", [](State& s, const KInst& ki, std::vector<Val>&) { setRet(s, ki, VC(errnoAddr, 64)); });
    auto nop = [](State& s, const KInst& ki, std::vector<Val>& a) { if (ki.dest >= 0) setRet(s, ki, a.empty() ? VC(0, 64) : a[0]); };
    for (auto n : {"_ZNSt13runtime_errorC1EPKc", "_ZNSt13runtime_errorC2EPKc", "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt13runtime_errorD1Ev", "_ZNSt13runtime_errorD2Ev", "_ZNSt13runtime_errorC1ERKS_", "_ZNSt13runtime_errorC2ERKS_",
            "_ZNSt11logic_errorC1EPKc", "_ZNSt11logic_errorC2EPKc", "_ZNSt11logic_errorD1Ev", "_ZNSt11logic_errorD2Ev", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12length_errorC1EPKc", "_ZNSt12length_errorD1Ev", "_ZNSt16invalid_argumentC1EPKc", "_ZNSt16invalid_argumentD1Ev",
            "_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12length_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
            "_ZNSt11range_errorC1EPKc", "_ZNSt11range_errorD1Ev", "_ZNSt14overflow_errorC1EPKc", "_ZNSt14overflow_errorD1Ev",
            "_ZNSt11logic_errorC1EOS_", "_ZNSt11logic_errorC2EOS_", "_ZNSt11logic_errorC1ERKS_", "_ZNSt11logic_errorC2ERKS_", "_ZNSt13runtime_errorC1EOS_", "_ZNSt13runtime_errorC2EOS_", "_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt12domain_errorC1EPKc", "_ZNSt12domain_errorD1Ev", "_ZNSt15underflow_errorC1EPKc", "_ZNSt15underflow_errorD1Ev",
            "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9bad_allocD1Ev", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev",
            "_ZNSolsEPFRSoS_E", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZNSolsEi", "_ZNSolsEj", "_ZNSolsEm", "_ZNSolsEl", "_ZNSo3putEc", "_ZNSo5flushEv", "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "printf", "fprintf", "puts", "putchar", "fputs", "fflush", "perror"})
        reg(n, nop);
    reg("_ZNKSt13runtime_error4whatEv", nop); reg("_ZNKSt11logic_error4whatEv", nop); reg("_ZNKSt9exception4whatEv", nop); reg("_ZNKSt9bad_alloc4whatEv", nop);
    struct T { const char* f; const char* t; };
    for (T t : {T{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, T{"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, T{"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, T{"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
            T{"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, T{"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, T{"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, T{"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"},
            T{"_ZSt20__throw_system_errori", "_ZTISt12system_error"}, T{"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, T{"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}})
        reg(t.f, [t](State& s, const KInst&, std::vector<Val>&) { throwStd(s, t.t); });
    // red-black tree helpers are provided by the harness runtime in C++
    (void)A;
}

static bool intrinsic(State& s, Frame& f, const KInst& ki, std::vector<Val>& a) {
    L::StringRef n = ki.callee->getName();
    auto nbin = [&](Op op) { s.top().regs[ki.dest] = VE(mkBin(op, a[0].ex(), a[1].ex())); };
    (void)nbin;
    switch (ki.callee->getIntrinsicID()) {
    case L::Intrinsic::memcpy: case L::Intrinsic::memmove: case L::Intrinsic::memcpy_inline: builtins[builtinIdx["memcpy"]](s, ki, a); return true;
    case L::Intrinsic::memset: case L::Intrinsic::memset_inline: builtins[builtinIdx["memset"]](s, ki, a); return true;
    case L::Intrinsic::lifetime_start: case L::Intrinsic::lifetime_end: case L::Intrinsic::assume: case L::Intrinsic::donothing: case L::Intrinsic::experimental_noalias_scope_decl:
    case L::Intrinsic::stacksave: case L::Intrinsic::stackrestore: case L::Intrinsic::invariant_start: case L::Intrinsic::invariant_end: case L::Intrinsic::prefetch: case L::Intrinsic::var_annotation:
    case L::Intrinsic::vastart: case L::Intrinsic::vaend:
        if (ki.dest >= 0) setRet(s, ki, VC(0, 64)); return true;
    case L::Intrinsic::expect: case L::Intrinsic::expect_with_probability: case L::Intrinsic::launder_invariant_group: case L::Intrinsic::strip_invariant_group: case L::Intrinsic::ptr_annotation: case L::Intrinsic::annotation:
        setRet(s, ki, a[0]); return true;
    case L::Intrinsic::is_constant: setRet(s, ki, VC(0, 1)); return true;
    case L::Intrinsic::objectsize: setRet(s, ki, VC(a[1].c ? 0 : ~0ull, ki.ty->leaves[0].w)); return true;
    case L::Intrinsic::eh_typeid_for: {
        for (auto& [g, ad] : gaddr) if (ad == a[0].c) { setRet(s, ki, VC((uint64_t)selId(g->getName().str()), 32)); return true; }
        giveUp(s, "typeid.for");
    }
    case L::Intrinsic::trap: case L::Intrinsic::ubsantrap: case L::Intrinsic::debugtrap: die(s, "abort", "trap");
    case L::Intrinsic::umax: setRet(s, ki, VE(mkIte(mkCmp(Op::Ult, a[0].ex(), a[1].ex()), a[1].ex(), a[0].ex()))); return true;
    case L::Intrinsic::umin: setRet(s, ki, VE(mkIte(mkCmp(Op::Ult, a[0].ex(), a[1].ex()), a[0].ex(), a[1].ex()))); return true;
    case L::Intrinsic::smax: setRet(s, ki, VE(mkIte(mkCmp(Op::Slt, a[0].ex(), a[1].ex()), a[1].ex(), a[0].ex()))); return true;
    case L::Intrinsic::smin: setRet(s, ki, VE(mkIte(mkCmp(Op::Slt, a[0].ex(), a[1].ex()), a[0].ex(), a[1].ex()))); return true;
    case L::Intrinsic::abs: { Expr* z = mkConst(0, a[0].w); setRet(s, ki, VE(mkIte(mkCmp(Op::Slt, a[0].ex(), z), mkBin(Op::Sub, z, a[0].ex()), a[0].ex()))); return true; }
    case L::Intrinsic::bswap: { Expr* e = a[0].ex(); Expr* r = nullptr; for (unsigned i = 0; i < a[0].w; i += 8) { Expr* b = mkExtract(e, i, 8); r = r ? mkConcat(r, b) : b; } setRet(s, ki, VE(r)); return true; }
    case L::Intrinsic::fshl: case L::Intrinsic::fshr: {
        unsigned w = a[0].w; bool left = ki.callee->getIntrinsicID() == L::Intrinsic::fshl;
        uint64_t k = concretize(s, a[2], "funnel shift") % w;
        Expr* cat = mkConcat(a[0].ex(), a[1].ex());
        setRet(s, ki, VE(left ? mkExtract(cat, w - (unsigned)k, w) : mkExtract(cat, (unsigned)k, w))); return true;
    }
    case L::Intrinsic::ctpop: { Expr* r = mkConst(0, a[0].w); for (unsigned i = 0; i < a[0].w; ++i) r = mkBin(Op::Add, r, mkZExt(mkExtract(a[0].ex(), i, 1), a[0].w)); setRet(s, ki, VE(r)); return true; }
    case L::Intrinsic::ctlz: { unsigned w = a[0].w; Expr* r = mkConst(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a[0].ex(), i, 1), mkConst(w - 1 - i, w), r); setRet(s, ki, VE(r)); return true; }
    case L::Intrinsic::cttz: { unsigned w = a[0].w; Expr* r = mkConst(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a[0].ex(), i, 1), mkConst(i, w), r); setRet(s, ki, VE(r)); return true; }
    case L::Intrinsic::uadd_with_overflow: case L::Intrinsic::usub_with_overflow: case L::Intrinsic::umul_with_overflow:
    case L::Intrinsic::sadd_with_overflow: case L::Intrinsic::ssub_with_overflow: case L::Intrinsic::smul_with_overflow: {
        auto id = ki.callee->getIntrinsicID(); unsigned w = a[0].w;
        bool sg = id == L::Intrinsic::sadd_with_overflow || id == L::Intrinsic::ssub_with_overflow || id == L::Intrinsic::smul_with_overflow;
        Op op = (id == L::Intrinsic::uadd_with_overflow || id == L::Intrinsic::sadd_with_overflow) ? Op::Add : (id == L::Intrinsic::usub_with_overflow || id == L::Intrinsic::ssub_with_overflow) ? Op::Sub : Op::Mul;
        Expr *x = a[0].ex(), *y = a[1].ex(); Expr* r = mkBin(op, x, y);
        unsigned W = 2 * w; Expr *X = sg ? mkSExt(x, W) : mkZExt(x, W), *Y = sg ? mkSExt(y, W) : mkZExt(y, W);
        Expr* ov;
        if (isC(x) && isC(y)) {
            if (sg) { __int128 p = sextOf(x->val, w), q = sextOf(y->val, w); __int128 t = op == Op::Add ? p + q : op == Op::Sub ? p - q : p * q; ov = mkConst(t != (__int128)sextOf(r->val, w), 1); }
            else { unsigned __int128 p = x->val, q = y->val; bool o = op == Op::Add ? (p + q) > maskOf(w) : op == Op::Sub ? p < q : (p * q) > maskOf(w); ov = mkConst(o, 1); }
        } else if (!sg && op == Op::Sub) ov = mkCmp(Op::Ult, x, y);
        else if (!sg && op == Op::Add) ov = mkCmp(Op::Ult, r, x);
        else { Expr* R = mkBin(op, X, Y); Expr* back = sg ? mkSExt(r, W) : mkZExt(r, W); ov = mkNot(mkCmp(Op::Eq, R, back)); }
        f.regs[ki.dest] = VE(r); f.regs[ki.dest + 1] = VE(ov); return true;
    }
    case L::Intrinsic::usub_sat: { Expr *x = a[0].ex(), *y = a[1].ex(); setRet(s, ki, VE(mkIte(mkCmp(Op::Ult, x, y), mkConst(0, a[0].w), mkBin(Op::Sub, x, y)))); return true; }
    case L::Intrinsic::uadd_sat: { Expr *x = a[0].ex(), *y = a[1].ex(); Expr* r = mkBin(Op::Add, x, y); setRet(s, ki, VE(mkIte(mkCmp(Op::Ult, r, x), mkConst(maskOf(a[0].w), a[0].w), r))); return true; }
    case L::Intrinsic::fabs: setRet(s, ki, VE(mkBin(Op::And, a[0].ex(), mkConst(maskOf(a[0].w) >> 1, a[0].w)))); return true;
    case L::Intrinsic::ceil: case L::Intrinsic::floor: case L::Intrinsic::trunc: case L::Intrinsic::round: {
        if (!a[0].isC() || (a[0].w != 64 && a[0].w != 32)) giveUp(s, "rounding of a symbolic number");
        double d; if (a[0].w == 64) memcpy(&d, &a[0].c, 8); else { float x; uint32_t c = (uint32_t)a[0].c; memcpy(&x, &c, 4); d = x; }
        auto id = ki.callee->getIntrinsicID();
        d = id == L::Intrinsic::ceil ? std::ceil(d) : id == L::Intrinsic::floor ? std::floor(d) : id == L::Intrinsic::trunc ? std::trunc(d) : std::round(d);
        uint64_t r = 0; if (a[0].w == 64) memcpy(&r, &d, 8); else { float x = (float)d; uint32_t c; memcpy(&c, &x, 4); r = c; }
        setRet(s, ki, VC(r, a[0].w)); return true; }
    case L::Intrinsic::fmuladd: case L::Intrinsic::fma: setRet(s, ki, VE(mkFP(Op::FAdd, mkFP(Op::FMul, a[0].ex(), a[1].ex(), a[0].w), a[2].ex(), a[0].w))); return true;
    case L::Intrinsic::threadlocal_address: setRet(s, ki, a[0]); return true;
    default: return false;
    }
}

static void doCall(State& s, const KInst& ki) {
    Frame& f = s.top();
    auto* CB = L::cast<L::CallBase>(ki.I);
    std::vector<Val> args;
    for (unsigned i = 0; i < CB->arg_size(); ++i) {
        L::Value* A = CB->getArgOperand(i);
        if (A->getType()->isMetadataTy()) continue;
        unsigned n = tyInfo(A->getType())->leaves.size();
        for (unsigned k = 0; k < n; ++k) args.push_back(opv(s, f, ki, i, k));
    }
    // byval arguments: copy
    for (unsigned i = 0, k = 0; i < CB->arg_size(); ++i) {
        L::Value* A = CB->getArgOperand(i); if (A->getType()->isMetadataTy()) continue;
        unsigned n = tyInfo(A->getType())->leaves.size();
        if (CB->isByValArgument(i)) {
            uint64_t sz = DL->getTypeAllocSize(CB->getParamByValType(i));
            uint64_t src = concretize(s, args[k], "byval");
            uint64_t id = s.mem.alloc(sz, KStack, 0xAA, ki.I); s.top().allocas.push_back((uint32_t)id);
            copyMem(s, addrOf(id), src, sz); args[k] = VC(addrOf(id), 64);
        }
        k += n;
    }
    L::Function* F = ki.callee;
    if (!F) {
        if (L::isa<L::InlineAsm>(CB->getCalledOperand())) { if (ki.dest >= 0) for (size_t j = 0; j < ki.ty->leaves.size(); ++j) f.regs[ki.dest + j] = VC(0, ki.ty->leaves[j].w); if (ki.ty->leaves.size()) addIncomplete("inline asm with result"); afterCall(s, ki); return; }
        const Val& fpv = opv(s, f, ki, ki.ops.size() - 1);   // the called operand is the last one
        Val fp = fpv;
        uint64_t a = concretize(s, fp, "function pointer");
        uint64_t idx = a / 16 - 1;
        if (a < 16 || a % 16 || idx >= funcByIdx.size()) die(s, "memory", "call through invalid function pointer");
        F = redirect(funcByIdx[idx]);
    }
    if (F->isIntrinsic()) {
        if (F != ki.callee) giveUp(s, "indirect intrinsic");
        if (intrinsic(s, f, ki, args)) { afterCall(s, ki); return; }
        giveUp(s, "intrinsic " + F->getName().str());
    }
    auto bi = builtinIdx.find(F->getName().str());
    if (bi != builtinIdx.end() && (F->isDeclaration() || F->getName() == "__clang_call_terminate")) {
        builtins[bi->second](s, ki, args);
        afterCall(s, ki); return;
    }
    if (F->isDeclaration()) giveUp(s, "unmodelled external function " + L::demangle(F->getName().str()));
    pushCall(s, kfunc(F), args);
}

static void finishPath(State& s) {
    nPaths++;
    if (nDumped < dumpPaths) {
        writeInputs(s, s.model, outDir + "/path" + std::to_string(nDumped) + ".in");
        std::ofstream t(outDir + "/path" + std::to_string(nDumped) + ".trace");
        for (auto& v : s.trace) { uint64_t x = v.isC() ? v.c : evalExpr(v.e, s.model); t << x << "\n"; }
        nDumped++;
    }
}

// executes one instruction; may throw PathEnd / Unwound
static void step(State& s) {
    Frame& f = s.top();
    KInst& ki = f.kf->code[f.pc];
    f.pc++; s.instrs++; nInstr++;
    L::Instruction* I = ki.I;
    using LI = L::Instruction;
    switch (ki.opc) {
    case LI::Ret: {
        std::vector<Val> rv;
        if (I->getNumOperands()) { unsigned n = tyInfo(I->getOperand(0)->getType())->leaves.size(); for (unsigned k = 0; k < n; ++k) rv.push_back(opv(s, f, ki, 0, k)); }
        popFrame(s);
        if (s.th[s.cur].stack.empty()) { if (s.cur == 0) { finishPath(s); throw PathEnd(); } giveUp(s, "thread function returned"); }
        Frame& c = s.top(); KInst& call = c.kf->code[c.pc - 1];
        if (call.dest >= 0) for (size_t k = 0; k < rv.size(); ++k) c.regs[call.dest + k] = rv[k];
        afterCall(s, call);
        break;
    }
    case LI::Br:
        if (ki.blk1 < 0) { enterBlock(s, ki.blk0, I->getParent()); break; }
        else {
            Val c = opv(s, f, ki, 0);
            bool t = c.isC() ? c.c : decide(s, c.e);
            enterBlock(s, t ? ki.blk0 : ki.blk1, I->getParent());
        }
        break;
    case LI::Switch: {
        auto* SI = L::cast<L::SwitchInst>(I);
        Val c = opv(s, f, ki, 0);
        if (c.isC()) {
            L::BasicBlock* d = SI->getDefaultDest();
            for (auto& cs : SI->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { d = cs.getCaseSuccessor(); break; }
            enterBlock(s, blockIndex(d), I->getParent()); break;
        }
        Expr* e = simp(s, c.e);
        // group the cases by destination
        std::vector<L::BasicBlock*> dests; std::map<L::BasicBlock*, Expr*> cond;
        Expr* any = mkFalse();
        for (auto& cs : SI->cases()) {
            Expr* q = mkCmp(Op::Eq, e, mkConst(cs.getCaseValue()->getZExtValue(), e->width));
            auto* d = cs.getCaseSuccessor();
            if (!cond.count(d)) { dests.push_back(d); cond[d] = mkFalse(); }
            cond[d] = mkBin(Op::Or, cond[d], q); any = mkBin(Op::Or, any, q);
        }
        { auto* d = SI->getDefaultDest(); Expr* q = mkNot(any); if (!cond.count(d)) { dests.push_back(d); cond[d] = q; } else cond[d] = mkBin(Op::Or, cond[d], q); }
        bool went = false;
        for (size_t i = 0; i < dests.size(); ++i) if (decide(s, cond[dests[i]])) { enterBlock(s, blockIndex(dests[i]), I->getParent()); went = true; break; }
        if (!went) giveUp(s, "switch without feasible destination");
        break;
    }
    case LI::Unreachable: die(s, "unreachable", "undefined behaviour: unreachable code reached");
    case LI::Invoke: case LI::Call: doCall(s, ki); break;
    case LI::Resume: { auto& th = s.th[s.cur]; th.inflight.obj = opv(s, f, ki, 0, 0).c; unwind(s); }
    case LI::Add: case LI::Sub: case LI::Mul: case LI::UDiv: case LI::SDiv: case LI::URem: case LI::SRem:
    case LI::And: case LI::Or: case LI::Xor: case LI::Shl: case LI::LShr: case LI::AShr:
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { Val r = binop(s, ki.opc, opv(s, f, ki, 0, k), opv(s, f, ki, 1, k)); f.regs[ki.dest + k] = r; }
        break;
    case LI::ICmp: {
        auto p = L::cast<L::ICmpInst>(I)->getPredicate();
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = icmp(p, opv(s, f, ki, 0, k), opv(s, f, ki, 1, k));
        break;
    }
    case LI::FCmp: {
        auto p = L::cast<L::FCmpInst>(I)->getPredicate();
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = VE(fcmpE(s, p, opv(s, f, ki, 0, k).ex(), opv(s, f, ki, 1, k).ex()));
        break;
    }
    case LI::FAdd: case LI::FSub: case LI::FMul: case LI::FDiv: {
        Op op = ki.opc == LI::FAdd ? Op::FAdd : ki.opc == LI::FSub ? Op::FSub : ki.opc == LI::FMul ? Op::FMul : Op::FDiv;
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { unsigned w = ki.ty->leaves[k].w; if (w > 64) giveUp(s, "long double"); f.regs[ki.dest + k] = VE(mkFP(op, opv(s, f, ki, 0, k).ex(), opv(s, f, ki, 1, k).ex(), w)); }
        break;
    }
    case LI::FNeg: for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { unsigned w = ki.ty->leaves[k].w; f.regs[ki.dest + k] = VE(mkBin(Op::Xor, opv(s, f, ki, 0, k).ex(), mkConst(1ull << (w - 1), w))); } break;
    case LI::SIToFP: case LI::UIToFP: case LI::FPToSI: case LI::FPToUI: case LI::FPExt: case LI::FPTrunc: {
        Op op = ki.opc == LI::SIToFP ? Op::SIToFP : ki.opc == LI::UIToFP ? Op::UIToFP : ki.opc == LI::FPToSI ? Op::FPToSI : ki.opc == LI::FPToUI ? Op::FPToUI : Op::FPCvt;
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { if (ki.ty->leaves[k].w > 64) giveUp(s, "long double"); f.regs[ki.dest + k] = VE(mkFP(op, opv(s, f, ki, 0, k).ex(), nullptr, ki.ty->leaves[k].w)); }
        break;
    }
    case LI::Trunc: for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { Val a = opv(s, f, ki, 0, k); unsigned w = ki.ty->leaves[k].w; f.regs[ki.dest + k] = a.isC() ? VC(a.c, w) : VE(mkExtract(a.e, 0, w)); } break;
    case LI::ZExt: for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { Val a = opv(s, f, ki, 0, k); unsigned w = ki.ty->leaves[k].w; f.regs[ki.dest + k] = a.isC() && w <= 64 ? VC(a.c, w) : VE(mkZExt(a.ex(), w)); } break;
    case LI::SExt: for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { Val a = opv(s, f, ki, 0, k); unsigned w = ki.ty->leaves[k].w; f.regs[ki.dest + k] = a.isC() && w <= 64 ? VC((uint64_t)sextOf(a.c, a.w), w) : VE(mkSExt(a.ex(), w)); } break;
    case LI::PtrToInt: case LI::IntToPtr: {
        Val a = opv(s, f, ki, 0); unsigned w = ki.ty->leaves[0].w;
        f.regs[ki.dest] = a.isC() ? VC(a.c, w) : a.w > w ? VE(mkExtract(a.e, 0, w)) : VE(mkZExt(a.e, w)); break;
    }
    case LI::BitCast: {
        auto* st = tyInfo(I->getOperand(0)->getType());
        if (st->leaves.size() == ki.ty->leaves.size()) { for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = opv(s, f, ki, 0, k); }
        else {
            Expr* all = nullptr; for (size_t k = 0; k < st->leaves.size(); ++k) { Expr* e = opv(s, f, ki, 0, k).ex(); all = all ? mkConcat(e, all) : e; }
            unsigned lo = 0; for (size_t k = 0; k < ki.ty->leaves.size(); ++k) { f.regs[ki.dest + k] = VE(mkExtract(all, lo, ki.ty->leaves[k].w)); lo += ki.ty->leaves[k].w; }
        }
        break;
    }
    case LI::Freeze: for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = opv(s, f, ki, 0, k); break;
    case LI::Select: {
        bool vec = I->getOperand(0)->getType()->isVectorTy();
        Val c = opv(s, f, ki, 0);
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) {
            if (vec) c = opv(s, f, ki, 0, k);
            const Val &a = opv(s, f, ki, 1, k), &b = opv(s, f, ki, 2, k);
            if (c.isC()) f.regs[ki.dest + k] = c.c ? a : b;
            else {
                Expr* sc = simp(s, c.e);
                f.regs[ki.dest + k] = VE(mkIte(sc, a.ex(), b.ex()));
            }
        }
        break;
    }
    case LI::Alloca: {
        auto* AI = L::cast<L::AllocaInst>(I);
        uint64_t n = concretize(s, opv(s, f, ki, 0), "alloca") * DL->getTypeAllocSize(AI->getAllocatedType());
        uint64_t id = s.mem.alloc(n, KStack, 0xAA, I);
        f.allocas.push_back((uint32_t)id);
        f.regs[ki.dest] = VC(addrOf(id), 64); break;
    }
    case LI::Load: {
        Val p = opv(s, f, ki, 0);
        if (ki.ty->leaves.size() == 1) f.regs[ki.dest] = loadMem(s, p, ki.ty->leaves[0].w);
        else {
            uint64_t a = concretize(s, p, "aggregate load");
            for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = loadMem(s, VC(a + ki.ty->leaves[k].off, 64), ki.ty->leaves[k].w);
        }
        break;
    }
    case LI::Store: {
        Val p = opv(s, f, ki, 1);
        if (ki.ty->leaves.size() == 1) storeMem(s, p, opv(s, f, ki, 0), ki.ty->leaves[0].w);
        else {
            uint64_t a = concretize(s, p, "aggregate store");
            for (size_t k = 0; k < ki.ty->leaves.size(); ++k) storeMem(s, VC(a + ki.ty->leaves[k].off, 64), opv(s, f, ki, 0, k), ki.ty->leaves[k].w);
        }
        break;
    }
    case LI::GetElementPtr: {
        Val b = opv(s, f, ki, 0);
        uint64_t c = (uint64_t)ki.gepC; Expr* sym = nullptr;
        for (auto& [oi, sc] : ki.gepV) {
            Val v = opv(s, f, ki, oi);
            if (v.isC()) c += (uint64_t)(sextOf(v.c, v.w) * sc);
            else { Expr* e = v.w < 64 ? mkSExt(v.e, 64) : v.w > 64 ? mkExtract(v.e, 0, 64) : v.e; e = mkBin(Op::Mul, e, mkConst((uint64_t)sc, 64)); sym = sym ? mkBin(Op::Add, sym, e) : e; }
        }
        if (b.isC() && !sym) f.regs[ki.dest] = VC(b.c + c, 64);
        else { Expr* e = b.ex(); if (sym) e = mkBin(Op::Add, e, sym); f.regs[ki.dest] = VE(mkBin(Op::Add, e, mkConst(c, 64))); }
        break;
    }
    case LI::ExtractValue: {
        auto* EV = L::cast<L::ExtractValueInst>(I); L::Type* T = EV->getAggregateOperand()->getType(); unsigned off = 0;
        for (unsigned ix : EV->indices()) {
            if (auto* ST = L::dyn_cast<L::StructType>(T)) { for (unsigned j = 0; j < ix; ++j) off += tyInfo(ST->getElementType(j))->leaves.size(); T = ST->getElementType(ix); }
            else { auto* AT = L::cast<L::ArrayType>(T); off += ix * tyInfo(AT->getElementType())->leaves.size(); T = AT->getElementType(); }
        }
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = opv(s, f, ki, 0, off + k);
        break;
    }
    case LI::InsertValue: {
        auto* IV = L::cast<L::InsertValueInst>(I); L::Type* T = IV->getAggregateOperand()->getType(); unsigned off = 0;
        for (unsigned ix : IV->indices()) {
            if (auto* ST = L::dyn_cast<L::StructType>(T)) { for (unsigned j = 0; j < ix; ++j) off += tyInfo(ST->getElementType(j))->leaves.size(); T = ST->getElementType(ix); }
            else { auto* AT = L::cast<L::ArrayType>(T); off += ix * tyInfo(AT->getElementType())->leaves.size(); T = AT->getElementType(); }
        }
        for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = opv(s, f, ki, 0, k);
        for (size_t k = 0; k < tyInfo(T)->leaves.size(); ++k) f.regs[ki.dest + off + k] = opv(s, f, ki, 1, k);
        break;
    }
    case LI::ExtractElement: { uint64_t ix = concretize(s, opv(s, f, ki, 1), "lane"); f.regs[ki.dest] = opv(s, f, ki, 0, (unsigned)ix); break; }
    case LI::InsertElement: { uint64_t ix = concretize(s, opv(s, f, ki, 2), "lane"); Val v = opv(s, f, ki, 1); for (size_t k = 0; k < ki.ty->leaves.size(); ++k) f.regs[ki.dest + k] = k == ix ? v : opv(s, f, ki, 0, k); break; }
    case LI::ShuffleVector: {
        auto* SV = L::cast<L::ShuffleVectorInst>(I); unsigned n = tyInfo(I->getOperand(0)->getType())->leaves.size(); std::vector<Val> r;
        for (int m : SV->getShuffleMask()) r.push_back(m < 0 ? VC(0, ki.ty->leaves[0].w) : (unsigned)m < n ? opv(s, f, ki, 0, m) : opv(s, f, ki, 1, m - n));
        for (size_t k = 0; k < r.size(); ++k) f.regs[ki.dest + k] = r[k];
        break;
    }
    case LI::Fence: break;
    case LI::AtomicRMW: {
        auto* R = L::cast<L::AtomicRMWInst>(I); Val p = opv(s, f, ki, 0), v = opv(s, f, ki, 1); unsigned w = ki.ty->leaves[0].w;
        Val old = loadMem(s, p, w), nv;
        switch (R->getOperation()) {
        case L::AtomicRMWInst::Xchg: nv = v; break;
        case L::AtomicRMWInst::Add: nv = VE(mkBin(Op::Add, old.ex(), v.ex())); break;
        case L::AtomicRMWInst::Sub: nv = VE(mkBin(Op::Sub, old.ex(), v.ex())); break;
        case L::AtomicRMWInst::And: nv = VE(mkBin(Op::And, old.ex(), v.ex())); break;
        case L::AtomicRMWInst::Or: nv = VE(mkBin(Op::Or, old.ex(), v.ex())); break;
        default: giveUp(s, "atomicrmw op");
        }
        storeMem(s, p, nv, w); f.regs[ki.dest] = old; break;
    }
    case LI::AtomicCmpXchg: {
        Val p = opv(s, f, ki, 0), c = opv(s, f, ki, 1), n = opv(s, f, ki, 2); unsigned w = ki.ty->leaves[0].w;
        Val old = loadMem(s, p, w); bool eq = decide(s, mkCmp(Op::Eq, old.ex(), c.ex()));
        if (eq) storeMem(s, p, n, w);
        f.regs[ki.dest] = old; f.regs[ki.dest + 1] = VC(eq, 1); break;
    }
    default: giveUp(s, std::string("instruction ") + I->getOpcodeName());
    }
}

// ---------------------------------------------------------------- setup
static void initGlobals(State& s) {
    unsigned fi = 0;
    for (auto& F : *M) { funcByIdx.push_back(&F); gaddr[&F] = (uint64_t)(++fi) * 16; }
    for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        uint64_t sz = 64; if (G.getValueType()->isSized() && !G.isDeclaration()) sz = DL->getTypeAllocSize(G.getValueType());
        if (G.isDeclaration()) sz = 512;
        uint64_t id = s.mem.alloc(sz, KGlobal, 0, &G); gaddr[&G] = addrOf(id);
    }
    for (auto& G : M->globals()) {
        if (!G.hasInitializer() || G.getName().starts_with("llvm.")) continue;
        auto* C = G.getInitializer(); uint64_t id = (gaddr[&G] >> ADDR_SHIFT) - 1; Obj* o = s.mem.getW(id);
        if (!L::isa<L::ConstantAggregateZero>(C) && !L::isa<L::UndefValue>(C)) {
            std::vector<Val> v; evalConst(C, v); auto* ti = tyInfo(C->getType());
            for (size_t i = 0; i < v.size(); ++i) if (!(v[i].isC() && v[i].c == 0)) wrN(o, ti->leaves[i].off, v[i], ti->leaves[i].w);
        }
        if (G.isConstant()) o->ro = true;
    }
    uint64_t id = s.mem.alloc(4, KGlobal, 0, nullptr); errnoAddr = addrOf(id);
}

static bool runState(State& s) {   // returns when the path ends
    try {
        for (;;) {
            try {
                for (;;) {
                    step(s);
                    if (s.instrs > maxInstr) giveUp(s, "instruction limit per path");
                    if ((nInstr & 0xfff) == 0 && elapsed() > maxTime) return false;
                }
            } catch (Unwound&) {}
        }
    } catch (PathEnd&) {}
    return true;
}

static std::string js(const std::string& s) {
    std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\"";
}

int main(int argc, char** argv) {
    std::string file, entry; unsigned qto = 60000;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--max-time") maxTime = std::stod(nx()); else if (a == "--max-paths") maxPaths = std::stoull(nx());
        else if (a == "--out") outDir = nx(); else if (a == "--dump-paths") dumpPaths = std::stoul(nx()); else if (a == "-v") verbose = true;
        else if (a == "--query-timeout") qto = std::stoul(nx()); else if (a == "--max-instr") maxInstr = std::stoull(nx()); else if (a == "--repo") repoRoot = nx();
        else if (a == "--dump-queries") dumpDir = nx(); else if (a == "--max-viol") maxViol = std::stoul(nx());
        else if (a == "--shard") { shardIdx = std::stoul(nx()); shardNum = std::stoul(nx()); shardDepth = std::stoul(nx()); }
        else file = a;
    }
    L::SMDiagnostic err; M = L::parseIRFile(file, err, LC);
    if (!M) { err.print("symx", L::errs()); return 4; }
    DL = &M->getDataLayout();
    t0 = std::chrono::steady_clock::now();
    solverInit(qto); initBuiltins();
    // make sure standard type infos that builtins throw exist
    auto st = std::make_unique<State>();
    initGlobals(*st);
    L::Function* F = M->getFunction(entry);
    if (!F) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 4; }
    // synthetic driver: run global constructors, then the entry
    L::Function* D = nullptr;
    {
        auto* FT = L::FunctionType::get(L::Type::getVoidTy(LC), false);
        D = L::Function::Create(FT, L::GlobalValue::ExternalLinkage, "symx.driver", M.get());
        auto* B = L::BasicBlock::Create(LC, "", D);
        if (auto* GC = M->getGlobalVariable("llvm.global_ctors")) if (GC->hasInitializer()) {
            std::vector<std::pair<uint64_t, L::Function*>> ctors;
            if (auto* CA = L::dyn_cast<L::ConstantArray>(GC->getInitializer())) for (auto& O : CA->operands()) {
                auto* CS = L::cast<L::ConstantStruct>(O);
                if (auto* CF = L::dyn_cast<L::Function>(CS->getOperand(1)->stripPointerCasts())) ctors.push_back({L::cast<L::ConstantInt>(CS->getOperand(0))->getZExtValue(), CF});
            }
            std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : ctors) L::CallInst::Create(c.second->getFunctionType(), c.second, {}, "", B);
        }
        L::CallInst::Create(F->getFunctionType(), F, {}, "", B);
        L::ReturnInst::Create(LC, B);
        gaddr[D] = 8;
    }
    st->th.emplace_back();
    pushCall(*st, kfunc(D), {});
    work.push_back(std::move(st));
    bool exhausted = true;
    while (!work.empty()) {
        if (elapsed() > maxTime || nPaths >= maxPaths) { exhausted = false; break; }
        StateP s = std::move(work.back()); work.pop_back();
        try { if (!runState(*s)) { exhausted = false; break; } }
        catch (PathEnd&) {}
    }
    if (!exhausted) addIncomplete("budget exhausted after " + std::to_string((int)elapsed()) + " s with " + std::to_string(work.size() + 1) + " pending paths");
    std::ostringstream o;
    o << "{\n \"entry\": " << js(entry) << ",\n \"complete\": " << (incomplete.empty() ? "true" : "false") << ",\n \"incomplete\": [";
    for (size_t i = 0; i < incomplete.size(); ++i) o << (i ? "," : "") << js(incomplete[i]);
    o << "],\n \"paths\": " << nPaths << ", \"forks\": " << nForks << ", \"instructions\": " << nInstr << ", \"killed\": " << nKilled << ", \"memory_checks\": " << nMemChecks << ", \"symbolic_accesses\": " << nSymMem << ", \"enumerated\": " << nEnum << ",\n";
    o << " \"solver\": {\"queries\": " << solverStats.queries << ", \"z3_calls\": " << solverStats.z3calls << ", \"cache_hits\": " << solverStats.cacheHits << ", \"model_hits\": " << solverStats.modelHits << ", \"sat\": " << solverStats.sat << ", \"unsat\": " << solverStats.unsat << ", \"unknown\": " << solverStats.unknown << ", \"time_s\": " << solverStats.time << ", \"max_query_s\": " << solverStats.maxTime << "},\n";
    o << " \"wall_s\": " << elapsed() << ", \"exprs\": " << exprCount() << ", \"dumped_paths\": " << nDumped << ",\n \"asserts\": {";
    { bool first = true; for (auto& [m, c] : asserts) { o << (first ? "" : ", ") << js(m) << ": [" << c.first << "," << c.second << "]"; first = false; } }
    o << "},\n \"reached\": {";
    { bool first = true; for (auto& [m, c] : reached) { o << (first ? "" : ", ") << js(m) << ": " << c; first = false; } }
    o << "},\n \"functions\": [";
    { bool first = true; std::set<std::string> names; for (auto& [f, k] : kfuncs) if (k->executed && k->isRepo) names.insert(k->pretty); for (auto& n : names) { o << (first ? "" : ",") << js(n); first = false; } }
    o << "],\n \"violations\": [";
    for (size_t i = 0; i < violations.size(); ++i) {
        auto& v = violations[i];
        o << (i ? "," : "") << "\n  {\"kind\": " << js(v.kind) << ", \"msg\": " << js(v.msg) << ", \"where\": " << js(v.where) << ", \"input\": " << js(v.file) << ", \"stack\": [";
        for (size_t j = 0; j < v.stack.size() && j < 12; ++j) o << (j ? "," : "") << js(v.stack[j]);
        o << "]}";
    }
    o << "]\n}\n";
    std::ofstream(outDir + "/result.json") << o.str();
    if (verbose) fprintf(stderr, "paths=%lu forks=%lu instr=%lu queries=%lu z3=%lu t=%.1f viol=%zu complete=%d\n", nPaths, nForks, nInstr, solverStats.queries, solverStats.z3calls, elapsed(), violations.size(), (int)incomplete.empty());
    fflush(stdout); _Exit(0);
}
