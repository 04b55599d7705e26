// irc: mechanical extraction of C from the LLVM IR that clang produces for the real
// (header-only template) code of /repo, for the CBMC back end.
//
//   irc IN.bc OUT.c ENTRY [--cut] [--list]
//
// What it does, and nothing else:
//   1. links nothing, rewrites nothing: takes the module clang emitted for a contract TU that
//      #includes /repo's headers;
//   2. inlines every defined callee without a contract of its own into ENTRY (always-inline),
//      promotes locals (sroa/mem2reg), canonicalises loops (loop-simplify);
//   3. prints the result as C, one C statement per IR instruction;
//   4. with --cut, replaces every loop that is not in a harness function by its inductive cut
//      (base / havoc / assume / body / step), using as candidate invariants every function
//      vhinv_* of the TU, instantiated with the loop-carried values of that loop and of the loops
//      around it; each instance is a separately named obligation guarded by #ifndef OFF_<n>,
//      so that the driver can drop the candidates that are not inductive (Houdini).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/SCCP.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Demangle/Demangle.h>
#include <fstream>
#include <iostream>
#include <set>
#include <map>
#include <sstream>
#include <functional>

using namespace llvm;
using std::string;

static Module* M;
static const DataLayout* DL;
static std::ostringstream types_out, glob_out, proto_out, body_out;
static bool opt_cut = false;
static int cand_no = 0, loop_no = 0;
static std::ostringstream cand_list;

static string san(StringRef n)
{
    string r;
    for(char c : n)
        if(isalnum((unsigned char)c) || c == '_') r += c;
        else { char b[8]; snprintf(b, 8, "_x%02x", (unsigned char)c); r += b; }
    return r;
}

static string cstr(StringRef s)
{
    string r;
    for(char c : s) { if(c == '"' || c == '\\') r += '\\'; if(c == '\n') { r += "\\n"; continue; } r += c; }
    return r;
}

[[noreturn]] static void die(const Twine& t)
{
    errs() << "irc: unsupported: " << t << "\n";
    exit(3);
}

// ---------------------------------------------------------------- types
static std::map<Type*, string> type_names;
static int anon_no = 0;

static string ity(unsigned bits)
{
    if(bits == 1) return "uint8_t";
    if(bits == 8 || bits == 16 || bits == 32 || bits == 64) return "uint" + std::to_string(bits) + "_t";
    if(bits == 128) return "u128";
    return "__typeof__(*(unsigned __CPROVER_bitvector[" + std::to_string(bits) + "]*)0)";
}

static string bvname(unsigned bits)
{
    static std::set<unsigned> done;
    if(bits == 1) return "uint8_t";
    if(bits == 8 || bits == 16 || bits == 32 || bits == 64) return "uint" + std::to_string(bits) + "_t";
    if(bits == 128) return "u128";
    string n = "u" + std::to_string(bits) + "_bv";
    if(done.insert(bits).second)
        types_out << "typedef unsigned __CPROVER_bitvector[" << bits << "] " << n << ";\n"
                  << "typedef signed __CPROVER_bitvector[" << bits << "] s" << n << ";\n"
                  << n << " nondet_" << n << "(void);\n";
    return n;
}

static string cty(Type* t);

static string sty(unsigned bits)
{
    if(bits == 1) return "int8_t";
    if(bits == 8 || bits == 16 || bits == 32 || bits == 64) return "int" + std::to_string(bits) + "_t";
    if(bits == 128) return "s128";
    bvname(bits);
    return "su" + std::to_string(bits) + "_bv";
}

static string cty(Type* t)
{
    auto it = type_names.find(t);
    if(it != type_names.end()) return it->second;
    string n;
    if(auto* i = dyn_cast<IntegerType>(t)) return bvname(i->getBitWidth());
    if(t->isPointerTy()) return "P";
    if(t->isVoidTy()) return "void";
    if(t->isFloatTy()) return "float";
    if(t->isDoubleTy()) return "double";
    if(t->isX86_FP80Ty()) return "long double";
    if(auto* s = dyn_cast<StructType>(t))
    {
        n = "struct S" + std::to_string(anon_no++);
        type_names[t] = n;
        std::ostringstream o;
        o << n << (s->hasName() ? " /* " + string(s->getName()) + " */" : "") << " {";
        for(unsigned i = 0; i < s->getNumElements(); i++)
        {
            Type* e = s->getElementType(i);
            // arrays inside structs as real C arrays
            string dims;
            while(auto* a = dyn_cast<ArrayType>(e)) { dims += "[" + std::to_string(a->getNumElements()) + "]"; e = a->getElementType(); }
            o << " " << cty(e) << " f" << i << dims << ";";
        }
        o << " }" << (s->isPacked() ? " __attribute__((packed))" : "") << ";\n";
        // nested types were printed first because cty recursed
        types_out << o.str();
        types_out << n << " nondet_" << n.substr(7) << "(void);\n";
        return n;
    }
    if(auto* a = dyn_cast<ArrayType>(t))
    {
        n = "struct A" + std::to_string(anon_no++);
        type_names[t] = n;
        Type* e = a->getElementType();
        string dims = "[" + std::to_string(a->getNumElements()) + "]";
        while(auto* b = dyn_cast<ArrayType>(e)) { dims += "[" + std::to_string(b->getNumElements()) + "]"; e = b->getElementType(); }
        string en = cty(e);
        types_out << n << " { " << en << " a" << dims << "; };\n";
        types_out << n << " nondet_" << n.substr(7) << "(void);\n";
        return n;
    }
    string s; raw_string_ostream os(s); t->print(os);
    die("type " + s);
}

static string nondet(Type* t)
{
    if(auto* i = dyn_cast<IntegerType>(t))
    {
        if(i->getBitWidth() == 1) return "(nondet_uint8_t()&1)";
        return "nondet_" + bvname(i->getBitWidth()) + "()";
    }
    if(t->isPointerTy()) return "nondet_P()";
    if(t->isFloatTy()) return "nondet_float()";
    if(t->isDoubleTy()) return "nondet_double()";
    if(t->isX86_FP80Ty()) return "nondet_ldouble()";
    string n = cty(t);
    return "nondet_" + n.substr(7) + "()";
}

// declare a variable of type t in "memory" form
static string memdecl(Type* t, const string& name)
{
    // an array object is wrapped in a struct: CBMC 6.11 resolves a pointer into a bare array object
    // that is reached with two different constant offsets to the wrong element (see DESIGN.md)
    return cty(t) + " " + name;
}

// ---------------------------------------------------------------- values
static std::map<const Value*, string> names;
static std::set<const Function*> need_fn, done_fn;
static std::set<const GlobalVariable*> need_gv;
static std::vector<const Function*> fn_queue;
static std::vector<const GlobalVariable*> gv_queue;

static const std::set<string> lib_fns = {"malloc","free","realloc","memcmp","bcmp","strlen","strcmp","strncmp","memcpy","memmove","memset",
    "_Znwm","_Znam","_ZdlPv","_ZdlPvm","_ZdaPv","isspace","isdigit","isupper","islower","isalpha","isalnum","toupper","tolower"};

static string fname(const Function* f)
{
    if(f->isDeclaration() && lib_fns.count(f->getName().str())) return "vhl_" + f->getName().str();
    if(need_fn.insert(f).second) fn_queue.push_back(f);
    return san(f->getName());
}
static string gname(const GlobalVariable* g)
{
    if(need_gv.insert(g).second) gv_queue.push_back(g);
    return "G_" + san(g->getName());
}

static string val(const Value* v);

static string intlit(const APInt& a)
{
    unsigned b = a.getBitWidth();
    string t = bvname(b);
    if(b <= 64)
    {
        return "((" + t + ")" + std::to_string(a.getZExtValue()) + "ull)";
    }
    if(b == 128)
    {
        return "((((u128)" + std::to_string(a.extractBitsAsZExtValue(64, 64)) + "ull)<<64)|((u128)" +
               std::to_string(a.extractBitsAsZExtValue(64, 0)) + "ull))";
    }
    die("wide int literal");
}

// address expression for a GEP
static string gep(const User* u, Type* src, bool)
{
    const Value* base = u->getOperand(0);
    string b = val(base);
    // first index
    auto idx = [&](unsigned i) -> string {
        const Value* v = u->getOperand(i);
        if(auto* c = dyn_cast<ConstantInt>(v)) return std::to_string(c->getSExtValue()) + "ll";
        unsigned bits = v->getType()->getIntegerBitWidth();
        return "(int64_t)(" + sty(bits) + ")(" + val(v) + ")";
    };
    string e;
    if(src->isArrayTy())
        e = "((" + cty(src) + "*)(" + b + "))[" + idx(1) + "].a";
    else
        e = "((" + cty(src) + "*)(" + b + "))[" + idx(1) + "]";
    if(u->getNumOperands() == 2)
    {
        return "((P)(((" + cty(src) + "*)(" + b + "))+(" + idx(1) + ")))";
    }
    Type* t = src;
    for(unsigned i = 2; i < u->getNumOperands(); i++)
    {
        if(auto* s = dyn_cast<StructType>(t))
        {
            unsigned k = cast<ConstantInt>(u->getOperand(i))->getZExtValue();
            e += ".f" + std::to_string(k);
            t = s->getElementType(k);
        }
        else
        {
            auto* a = cast<ArrayType>(t);
            // last index into an array: pointer arithmetic, so that one-past-the-end (and the
            // member-of-unsized [0 x T]) is no dereference
            if(i + 1 == u->getNumOperands() && !a->getElementType()->isArrayTy())
                return "((P)((" + cty(a->getElementType()) + "*)&(" + e + ")+(" + idx(i) + ")))";
            e += "[" + idx(i) + "]";
            t = a->getElementType();
        }
    }
    return "((P)&(" + e + "))";
}

static string constagg_init(const Constant* c);

static string val(const Value* v)
{
    auto it = names.find(v);
    if(it != names.end()) return it->second;
    if(auto* c = dyn_cast<ConstantInt>(v)) return intlit(c->getValue());
    if(isa<ConstantPointerNull>(v)) return "((P)0)";
    if(isa<UndefValue>(v)) return nondet(v->getType());      // undef and poison
    if(auto* f = dyn_cast<ConstantFP>(v))
    {
        SmallString<64> s;
        if(v->getType()->isFloatTy() || v->getType()->isDoubleTy())
        {
            double d = f->getValueAPF().convertToDouble();
            char b[64]; snprintf(b, 64, "%a", d);
            return "((" + cty(v->getType()) + ")" + b + ")";
        }
        f->getValueAPF().toString(s, 30, 0);
        return "((long double)" + string(s) + "L)";
    }
    if(auto* f = dyn_cast<Function>(v)) return "((P)&" + fname(f) + ")";
    if(auto* g = dyn_cast<GlobalVariable>(v)) return "((P)&" + gname(g) + ")";
    if(auto* a = dyn_cast<GlobalAlias>(v)) return val(a->getAliasee());
    if(auto* ce = dyn_cast<ConstantExpr>(v))
    {
        switch(ce->getOpcode())
        {
            case Instruction::GetElementPtr: return gep(ce, cast<GEPOperator>(ce)->getSourceElementType(), true);
            case Instruction::PtrToInt: return "((" + cty(ce->getType()) + ")(" + val(ce->getOperand(0)) + "))";
            case Instruction::IntToPtr: return "((P)(" + val(ce->getOperand(0)) + "))";
            case Instruction::BitCast: return val(ce->getOperand(0));
            case Instruction::Trunc: return "((" + cty(ce->getType()) + ")(" + val(ce->getOperand(0)) + "))";
            case Instruction::Sub:
                return "((" + cty(ce->getType()) + ")((" + val(ce->getOperand(0)) + ")-(" + val(ce->getOperand(1)) + ")))";
            case Instruction::Add:
                return "((" + cty(ce->getType()) + ")((" + val(ce->getOperand(0)) + ")+(" + val(ce->getOperand(1)) + ")))";
            default: die(Twine("constant expression ") + ce->getOpcodeName());
        }
    }
    if(isa<ConstantAggregateZero>(v) || isa<ConstantStruct>(v) || isa<ConstantArray>(v) || isa<ConstantDataArray>(v))
        return "((" + cty(v->getType()) + ")" + (v->getType()->isArrayTy() ? "{" : "") + constagg_init(cast<Constant>(v)) +
               (v->getType()->isArrayTy() ? "}" : "") + ")";
    string s; raw_string_ostream os(s); v->print(os);
    die("value " + s);
}

static string constagg_init(const Constant* c)
{
    Type* t = c->getType();
    if(isa<ConstantAggregateZero>(c) || isa<UndefValue>(c))
    {
        if(t->isStructTy())
        {
            string r = "{";
            auto* s = cast<StructType>(t);
            for(unsigned i = 0; i < s->getNumElements(); i++) { if(i) r += ","; r += constagg_init(Constant::getNullValue(s->getElementType(i))); }
            return r + "}";
        }
        if(auto* a = dyn_cast<ArrayType>(t))
        {
            string r = "{";
            for(unsigned i = 0; i < a->getNumElements(); i++) { if(i) r += ","; r += constagg_init(Constant::getNullValue(a->getElementType())); }
            return r + "}";
        }
        return "0";
    }
    if(auto* s = dyn_cast<ConstantStruct>(c))
    {
        string r = "{";
        for(unsigned i = 0; i < s->getNumOperands(); i++) { if(i) r += ","; r += constagg_init(s->getOperand(i)); }
        return r + "}";
    }
    if(auto* a = dyn_cast<ConstantArray>(c))
    {
        string r = "{";
        for(unsigned i = 0; i < a->getNumOperands(); i++) { if(i) r += ","; r += constagg_init(a->getOperand(i)); }
        return r + "}";
    }
    if(auto* a = dyn_cast<ConstantDataSequential>(c))
    {
        string r = "{";
        for(unsigned i = 0; i < a->getNumElements(); i++) { if(i) r += ","; r += constagg_init(a->getElementAsConstant(i)); }
        return r + "}";
    }
    return val(c);
}

static bool is_vh(const Function* f)   // functions of the contract layer that are never inlined or cut
{
    StringRef n = f->getName();
    return n.starts_with("vhinv_") || n.starts_with("__vh_") || n.starts_with("vhspec_");
}

// ---------------------------------------------------------------- per function
struct FnEmit
{
    Function& F;
    std::ostringstream o;
    std::ostringstream decls;
    DominatorTree DT;
    LoopInfo LI;
    int tmp = 0;
    std::map<const BasicBlock*, string> bl;
    string last_line;
    struct Cand { int no; string call; };
    struct Cut { int id; std::vector<Cand> cands; std::vector<PHINode*> phis; string what; std::vector<string> decs; };
    std::map<const Loop*, Cut> cuts;

    FnEmit(Function& f) : F(f), DT(f), LI(DT) {}

    string S(const Value* v)    // value as signed
    {
        unsigned b = v->getType()->getIntegerBitWidth();
        if(b == 1) return "((int8_t)-(int8_t)(" + val(v) + "))";
        return "((" + sty(b) + ")(" + val(v) + "))";
    }

    string where(const Instruction& I)
    {
        if(const DebugLoc& d = I.getDebugLoc())
        {
            // innermost location not in the contract layer
            const DILocation* l = d.get();
            string fn = l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "";
            string file = l->getFilename().str();
            size_t p = file.find("/src/estd/");
            if(p != string::npos) file = file.substr(p + 5);
            return fn + " " + file;
        }
        return F.getName().str();
    }
    string whereline(const Instruction& I)
    {
        if(const DebugLoc& d = I.getDebugLoc()) return where(I) + ":" + std::to_string(d.getLine());
        return where(I);
    }

    void setup_names()
    {
        int n = 0;
        for(auto& a : F.args()) names[&a] = "a" + std::to_string(n++);
        n = 0;
        for(auto& B : F)
        {
            bl[&B] = "L" + std::to_string(n++);
        }
        n = 0;
        for(auto& B : F) for(auto& I : B)
        {
            if(I.getType()->isVoidTy()) continue;
            string nm = "v" + std::to_string(n++);
            if(auto* A = dyn_cast<AllocaInst>(&I))
            {
                if(auto* c = dyn_cast<ConstantInt>(A->getArraySize()))
                {
                    Type* t = A->getAllocatedType();
                    if(!c->isOne()) t = ArrayType::get(t, c->getZExtValue());
                    decls << "  " << memdecl(t, "m" + nm) << ";\n";
                    names[&I] = "((P)&m" + nm + ")";
                    continue;
                }
                die("dynamic alloca");
            }
            names[&I] = nm;
            decls << "  " << cty(I.getType()) << " " << nm << ";\n";
            if(isa<PHINode>(I)) decls << "  " << cty(I.getType()) << " " << nm << "_n;\n";
        }
    }

    // stores reachable inside the loop: which allocas, and whether anything else
    void loop_effects(const Loop* L, std::set<const Value*>& allocas, bool& other)
    {
        auto tgt = [&](const Value* p) {
            const Value* b = getUnderlyingObject(p, 0);
            if(isa<AllocaInst>(b) || isa<GlobalVariable>(b)) allocas.insert(b);
            else other = true;
        };
        for(auto* B : L->blocks()) for(auto& I : *B)
        {
            if(auto* s = dyn_cast<StoreInst>(&I)) tgt(s->getPointerOperand());
            else if(auto* m = dyn_cast<MemIntrinsic>(&I)) tgt(m->getDest());
            else if(auto* c = dyn_cast<CallBase>(&I))
            {
                if(isa<IntrinsicInst>(c)) continue;
                Function* f = c->getCalledFunction();
                if(!f) { other = true; continue; }
                StringRef n = f->getName();
                if(n.starts_with("__vh_nd") || n == "__vh_assert" || n == "__vh_assume" || n.starts_with("vhinv_") || n.starts_with("vhspec_") || n == "__vh_same" || n == "__vh_diff" ||
                   n == "memcmp" || n == "bcmp" || n == "strlen" || n == "abort" || n == "__assert_fail" || n.starts_with("__vh_pure"))
                    continue;
                if(n == "memcpy" || n == "memmove" || n == "memset") { tgt(c->getArgOperand(0)); continue; }
                other = true;
            }
        }
    }

    unsigned stride_of(PHINode* p, const Loop* L)
    {
        // constant GEP step on the back edge gives the stride
        std::set<const Value*> seen;
        std::function<unsigned(const Value*)> go = [&](const Value* v) -> unsigned {
            if(v == p) return 0;
            if(!seen.insert(v).second) return 0;
            if(auto* g = dyn_cast<GetElementPtrInst>(v))
            {
                if(L->contains(g))
                {
                    unsigned s = go(g->getPointerOperand());
                    unsigned me = 1;
                    if(g->getNumIndices() == 1) me = DL->getTypeAllocSize(g->getSourceElementType());
                    if(s == 0) return me;
                    unsigned a = me, b = s; while(b) { unsigned t = a % b; a = b; b = t; } return a;
                }
                return 0;
            }
            if(auto* q = dyn_cast<PHINode>(v))
            {
                unsigned r = 0;
                for(auto& in : q->incoming_values()) { unsigned s = go(in); if(s) r = r ? std::min(r, s) : s; }
                return r;
            }
            if(auto* s = dyn_cast<SelectInst>(v)) { unsigned a = go(s->getTrueValue()), b = go(s->getFalseValue()); return a && b ? std::min(a, b) : a + b; }
            return 0;
        };
        unsigned r = 0;
        for(unsigned i = 0; i < p->getNumIncomingValues(); i++)
            if(L->contains(p->getIncomingBlock(i))) { unsigned s = go(p->getIncomingValue(i)); if(s) r = r ? std::min(r, s) : s; }
        return r ? r : 1;
    }

    void plan_cuts()
    {
        if(!opt_cut) return;
        std::vector<Loop*> ls;
        for(auto* L : LI.getLoopsInPreorder()) ls.push_back(L);
        for(auto* L : ls)
        {
            Instruction* t = L->getHeader()->getTerminator();
            // a loop marked by the harness as one to unroll: its header block calls __vh_unroll()
            bool skip = false;
            for(auto* B : L->blocks()) if(LI.getLoopFor(B) == L) for(auto& I : *B)
                if(auto* c = dyn_cast<CallInst>(&I)) if(c->getCalledFunction() && c->getCalledFunction()->getName() == "__vh_unroll") skip = true;
            if(skip) continue;
            Cut c;
            c.id = loop_no++;
            string wl = where(*t);
            if(DebugLoc d = L->getStartLoc()) wl = whereline(*t);
            c.what = wl;
            for(auto& I : *L->getHeader()) if(auto* p = dyn_cast<PHINode>(&I)) c.phis.push_back(p); else break;
            // candidate values: own phis, phis of enclosing loops' headers
            bool writes = false;
            { std::set<const Value*> al; loop_effects(L, al, writes); for(auto* v : al) if(isa<GlobalVariable>(v)) writes = true; }
            std::vector<const Value*> pool(c.phis.begin(), c.phis.end());
            for(Loop* P = L->getParentLoop(); P; P = P->getParentLoop())
                for(auto& I : *P->getHeader()) if(auto* p = dyn_cast<PHINode>(&I)) pool.push_back(p); else break;
            for(auto& f : *M)
            {
                if(!f.getName().starts_with("vhinv_") || f.isDeclaration()) continue;
                std::vector<const Value*> pick;
                std::function<void(unsigned)> rec = [&](unsigned k) {
                    if(k == f.arg_size())
                    {
                        // at least one own phi, or no args at all (memory invariant)
                        bool own = pick.empty() || (writes && L->getParentLoop());
                        for(auto* v : pick) for(auto* p : c.phis) if(v == p) own = true;
                        if(!own) return;
                        string call = fname(&f) + "(";
                        for(unsigned i = 0; i < pick.size(); i++) { if(i) call += ","; call += names[pick[i]]; }
                        call += ")";
                        int no = cand_no++;
                        c.cands.push_back({no, call});
                        cand_list << no << "\t" << c.id << "\t" << f.getName().str() << "\t" << call << "\t" << c.what << "\n";
                        return;
                    }
                    for(auto* v : pool)
                    {
                        if(v->getType() != f.getArg(k)->getType()) continue;
                        if(std::find(pick.begin(), pick.end(), v) != pick.end()) continue;
                        pick.push_back(v); rec(k + 1); pick.pop_back();
                    }
                };
                rec(0);
            }
            cuts[L] = c;
            for(auto* p : c.phis) if(p->getType()->isPointerTy()) decls << "  P " << names[p] << "_ent;\n";
        }
    }

    void edge(const BasicBlock* from, const BasicBlock* to, const string& ind)
    {
        // phi copies
        std::vector<const PHINode*> ps;
        for(auto& I : *to) if(auto* p = dyn_cast<PHINode>(&I)) ps.push_back(p); else break;
        for(auto* p : ps) o << ind << names[p] << "_n = " << val(p->getIncomingValueForBlock(from)) << ";\n";
        for(auto* p : ps) o << ind << names[p] << " = " << names[p] << "_n;\n";
        const Loop* L = LI.getLoopFor(to);
        if(L && L->getHeader() == to && cuts.count(L))
        {
            Cut& c = cuts[L];
            if(!L->contains(from))
            {
                for(auto* p : c.phis) if(p->getType()->isPointerTy()) o << ind << names[p] << "_ent = " << names[p] << ";\n";
                for(auto& cd : c.cands)
                    o << "#ifndef OFF_" << cd.no << "\n" << ind << "__CPROVER_assert(" << cd.call << ",\"inv|" << cd.no << "|base|loop " << c.id << " in " << cstr(c.what) << "\");\n#endif\n";
                o << ind << "goto " << bl[to] << "_cut;\n";
            }
            else
            {
                for(auto* p : c.phis) if(p->getType()->isPointerTy())
                    o << ind << "__CPROVER_assert(__CPROVER_same_object(" << names[p] << "," << names[p] << "_ent)"
                      << (stride_of(const_cast<PHINode*>(p), L) == 1 ? string() : " && (__vh_diff(" + names[p] + "," + names[p] + "_ent)%" + std::to_string(stride_of(const_cast<PHINode*>(p), L)) + "==0)")
                      << ",\"cut|pointer loop variable stays in its object|loop " << c.id
                      << " in " << cstr(c.what) << "\");\n";
                for(auto& cd : c.cands)
                    o << "#ifndef OFF_" << cd.no << "\n" << ind << "__CPROVER_assert(" << cd.call << ",\"inv|" << cd.no << "|step|loop " << c.id << " in " << cstr(c.what) << "\");\n#endif\n";
                o << ind << "__CPROVER_assume(0);\n" << ind << "goto " << bl[to] << ";\n";
            }
            return;
        }
        o << ind << "goto " << bl[to] << ";\n";
    }

    void emit_cut_header(const Loop* L)
    {
        Cut& c = cuts[L];
        string H = bl[L->getHeader()];
        o << H << "_cut: ;\n";
        std::set<const Value*> al; bool other = false;
        loop_effects(L, al, other);
        for(auto* p : c.phis)
        {
            if(p->getType()->isPointerTy())
            {
                unsigned s = stride_of(p, L);
                string k = "k" + std::to_string(tmp++);
                decls << "  int64_t " << k << ";\n";
                o << "  " << k << " = __vh_off();\n";
                string t = s == 1 ? "char" : s == 2 ? "uint16_t" : s == 4 ? "uint32_t" : s == 8 ? "uint64_t" : "";
                if(!t.empty()) o << "  " << names[p] << " = (P)((" << t << "*)" << names[p] << "_ent + " << k << ");\n";
                else o << "  " << names[p] << " = " << names[p] << "_ent + " << k << "*" << s << ";\n";
            }
            else o << "  " << names[p] << " = " << nondet(p->getType()) << ";\n";
        }
        for(auto* a : al)
            o << "  __CPROVER_havoc_object(" << val(a) << ");\n";
        if(other) o << "  __vh_havoc_regions();\n";
        for(auto& cd : c.cands)
            o << "#ifndef OFF_" << cd.no << "\n  __CPROVER_assume(" << cd.call << ");\n#endif\n";
        o << "  goto " << H << ";\n";
    }

    bool in_cut_loop(const BasicBlock* B)
    {
        for(Loop* L = LI.getLoopFor(B); L; L = L->getParentLoop()) if(cuts.count(L)) return true;
        return false;
    }

    void frame_check(const Value* p, const string& size, const Instruction& I)
    {
        if(!in_cut_loop(I.getParent())) return;
        if(isa<AllocaInst>(getUnderlyingObject(p, 0)) || isa<GlobalVariable>(getUnderlyingObject(p, 0))) return;
        o << "  __CPROVER_assert(__vh_in_regions(" << val(p) << "," << size << "),\"frame|store stays inside the declared write set|" << cstr(whereline(I)) << "\");\n";
    }

    void emit_call(CallBase& C)
    {
        Function* f = C.getCalledFunction();
        if(!f) if(auto* al = dyn_cast<GlobalAlias>(C.getCalledOperand())) f = dyn_cast<Function>(al->getAliasee());
        string lhs = C.getType()->isVoidTy() ? "" : names[&C] + " = ";
        auto A = [&](unsigned i) { return val(C.getArgOperand(i)); };
        if(f && f->isIntrinsic())
        {
            Type* t = C.getType();
            auto bits = [&] { return C.getArgOperand(0)->getType()->getIntegerBitWidth(); };
            switch(f->getIntrinsicID())
            {
                case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
                case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
                case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch:
                    if(f->getIntrinsicID() == Intrinsic::invariant_start) o << "  " << lhs << "(P)0;\n";
                    return;
                case Intrinsic::expect: o << "  " << lhs << A(0) << ";\n"; return;
                case Intrinsic::stacksave: o << "  " << lhs << "(P)0;\n"; return;
                case Intrinsic::stackrestore: return;
                case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: o << "  " << lhs << A(0) << ";\n"; return;
                case Intrinsic::is_constant: o << "  " << lhs << "0;\n"; return;
                case Intrinsic::objectsize: o << "  " << lhs << "(uint64_t)-1;\n"; return;
                case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
                {
                    string kind = "trap";
                    if(f->getIntrinsicID() == Intrinsic::ubsantrap)
                    {
                        // clang's SanitizerHandler numbering
                        static const char* k[] = {"add-overflow","builtin-unreachable","cfi-check-fail","divrem-overflow","dynamic-type-cache-miss",
                            "float-cast-overflow","function-type-mismatch","implicit-conversion","invalid-builtin","invalid-objc-cast","load-invalid-value",
                            "missing-return","mul-overflow","negate-overflow","nullability-arg","nullability-return","nonnull-arg","nonnull-return",
                            "out-of-bounds","pointer-overflow","shift-out-of-bounds","sub-overflow","type-mismatch","alignment-assumption","vla-bound-not-positive"};
                        unsigned n = cast<ConstantInt>(C.getArgOperand(0))->getZExtValue();
                        kind = n < sizeof k / sizeof *k ? k[n] : "ub";
                    }
                    o << "  __CPROVER_assert(0,\"ub|" << kind << "|" << cstr(whereline(C)) << "\"); __CPROVER_assume(0);\n";
                    return;
                }
                case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove:
                {
                    bool move = f->getIntrinsicID() == Intrinsic::memmove;
                    if(auto* n = dyn_cast<ConstantInt>(C.getArgOperand(2)))
                    {
                        uint64_t sz = n->getZExtValue();
                        if(sz == 0) return;
                        frame_check(C.getArgOperand(0), std::to_string(sz), C);
                        // a typed copy if one of the sides tells us its type
                        for(int s = 0; s < 2; s++)
                        {
                            const Value* p = C.getArgOperand(s);
                            Type* t2 = nullptr;
                            if(auto* al = dyn_cast<AllocaInst>(p)) t2 = al->getAllocatedType();
                            else if(auto* g = dyn_cast<GEPOperator>(p)) t2 = g->getResultElementType();
                            else if(auto* gv = dyn_cast<GlobalVariable>(p)) t2 = gv->getValueType();
                            if(t2 && t2->isSized() && DL->getTypeAllocSize(t2) == sz && (t2->isStructTy() || t2->isIntegerTy() || t2->isPointerTy() || t2->isArrayTy()))
                            {
                                o << "  *(" << cty(t2) << "*)(" << A(0) << ") = *(" << cty(t2) << "*)(" << A(1) << ");\n";
                                return;
                            }
                        }
                        if(sz <= 64 && !move)
                        {
                            uint64_t off = 0;
                            for(uint64_t w : {8, 4, 2, 1})
                                for(; sz - off >= w; off += w)
                                {
                                    string t2 = w == 8 ? "P" : w == 4 ? "uint32_t" : w == 2 ? "uint16_t" : "uint8_t";
                                    o << "  *(" << t2 << "*)(" << A(0) << "+" << off << ") = *(" << t2 << "*)(" << A(1) << "+" << off << ");\n";
                                }
                            return;
                        }
                    }
                    else frame_check(C.getArgOperand(0), A(2), C);
                    o << "  __vh_" << (move ? "memmove" : "memcpy") << "(" << A(0) << "," << A(1) << ",(uint64_t)" << A(2) << ");\n";
                    return;
                }
                case Intrinsic::memset:
                    frame_check(C.getArgOperand(0), A(2), C);
                    if(auto* n = dyn_cast<ConstantInt>(C.getArgOperand(2)))
                    {
                        const Value* p = C.getArgOperand(0);
                        Type* t2 = nullptr;
                        if(auto* al = dyn_cast<AllocaInst>(p)) t2 = al->getAllocatedType();
                        auto* z = dyn_cast<ConstantInt>(C.getArgOperand(1));
                        if(t2 && z && z->isZero() && DL->getTypeAllocSize(t2) == n->getZExtValue() && (t2->isStructTy() || t2->isArrayTy()))
                        {
                            o << "  *(" << cty(t2) << "*)(" << A(0) << ") = " << val(Constant::getNullValue(t2)) << ";\n";
                            return;
                        }
                    }
                    o << "  __vh_memset(" << A(0) << "," << A(1) << ",(uint64_t)" << A(2) << ");\n";
                    return;
                case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
                case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
                {
                    unsigned b = bits();
                    auto id = f->getIntrinsicID();
                    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                    string opn = id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow ? "+" :
                                 id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow ? "-" : "*";
                    string nm = opn == "+" ? "plus" : opn == "-" ? "minus" : "mult";
                    string x = sg ? S(C.getArgOperand(0)) : "(" + A(0) + ")", y = sg ? S(C.getArgOperand(1)) : "(" + A(1) + ")";
                    if(b < 64)
                    {
                        // exact in a double-width type
                        string wt = sg ? (b <= 32 ? "int64_t" : "s128") : (b <= 32 ? "uint64_t" : "u128");
                        string w = "w" + std::to_string(tmp++);
                        decls << "  " << wt << " " << w << ";\n";
                        o << "  " << w << " = ((" << wt << ")" << x << ")" << opn << "((" << wt << ")" << y << ");\n";
                        o << "  " << names[&C] << ".f0 = (" << bvname(b) << ")" << w << ";\n";
                        o << "  " << names[&C] << ".f1 = (" << w << " != (" << wt << ")(" << (sg ? sty(b) : bvname(b)) << ")" << w << ");\n";
                    }
                    else
                    {
                        o << "  " << names[&C] << ".f0 = (" << bvname(b) << ")((" << A(0) << ")" << opn << "(" << A(1) << "));\n";
                        o << "  " << names[&C] << ".f1 = __CPROVER_overflow_" << nm << "(" << x << "," << y << ");\n";
                    }
                    return;
                }
                case Intrinsic::bswap:
                {
                    unsigned b = bits();
                    string e;
                    for(unsigned i = 0; i < b; i += 8)
                        e += string(i ? "|" : "") + "((((" + A(0) + ")>>" + std::to_string(i) + ")&255ull)<<" + std::to_string(b - 8 - i) + ")";
                    o << "  " << lhs << "(" << bvname(b) << ")(" << e << ");\n";
                    return;
                }
                case Intrinsic::abs: o << "  " << lhs << "(" << cty(t) << ")(" << S(C.getArgOperand(0)) << "<0?-(" << A(0) << "):(" << A(0) << "));\n"; return;
                case Intrinsic::umin: o << "  " << lhs << "(" << A(0) << ")<(" << A(1) << ")?(" << A(0) << "):(" << A(1) << ");\n"; return;
                case Intrinsic::umax: o << "  " << lhs << "(" << A(0) << ")>(" << A(1) << ")?(" << A(0) << "):(" << A(1) << ");\n"; return;
                case Intrinsic::smin: o << "  " << lhs << S(C.getArgOperand(0)) << "<" << S(C.getArgOperand(1)) << "?(" << A(0) << "):(" << A(1) << ");\n"; return;
                case Intrinsic::smax: o << "  " << lhs << S(C.getArgOperand(0)) << ">" << S(C.getArgOperand(1)) << "?(" << A(0) << "):(" << A(1) << ");\n"; return;
                case Intrinsic::ctpop: o << "  " << lhs << "(" << cty(t) << ")__builtin_popcountll((unsigned long long)(" << A(0) << "));\n"; return;
                case Intrinsic::ctlz: o << "  " << lhs << "(" << cty(t) << ")__vh_clz((uint64_t)(" << A(0) << ")," << bits() << ");\n"; return;
                case Intrinsic::cttz: o << "  " << lhs << "(" << cty(t) << ")__vh_ctz((uint64_t)(" << A(0) << ")," << bits() << ");\n"; return;
                case Intrinsic::fabs: o << "  " << lhs << "((" << A(0) << ")<0?-(" << A(0) << "):(" << A(0) << "));\n"; return;
                case Intrinsic::fmuladd: o << "  " << lhs << "((" << A(0) << ")*(" << A(1) << "))+(" << A(2) << ");\n"; return;
                case Intrinsic::eh_typeid_for: o << "  " << lhs << "0;\n"; return;
                default: die("intrinsic " + f->getName());
            }
        }
        if(C.isInlineAsm()) die("inline asm");
        if(f)
        {
            StringRef n = f->getName();
            if(n == "__vh_assert")
            {
                const Value* lv = C.getArgOperand(1)->stripPointerCasts();
                StringRef s;
                if(!getConstantStringInfo(lv, s)) die("__vh_assert needs a literal label");
                o << "  __CPROVER_assert(" << A(0) << ",\"post|" << cstr(s) << "\");\n";
                return;
            }
            if(n == "__vh_assume") { o << "  __CPROVER_assume(" << A(0) << ");\n"; return; }
            if(n == "__vh_reach")
            {
                const Value* lv = C.getArgOperand(0)->stripPointerCasts();
                StringRef s; if(!getConstantStringInfo(lv, s)) die("__vh_reach needs a literal label");
                o << "  __CPROVER_assert(0,\"reach|" << cstr(s) << "\");\n";
                return;
            }
            if(n == "__vh_unroll") return;
            if(n == "__cxa_throw" || n == "_ZSt9terminatev" || n == "__cxa_call_terminate" || n == "__clang_call_terminate" || n.starts_with("_ZSt") && n.contains("__throw_"))
            {
                o << "  __vh_event(1); __CPROVER_assume(0);\n"; return;
            }
            if(n == "abort" || n == "__assert_fail" || n == "exit")
            {
                o << "  __vh_event(2); __CPROVER_assume(0);\n"; return;
            }
            if(n == "__cxa_allocate_exception") { o << "  " << lhs << "(P)malloc(64);\n"; return; }
            if(n == "__cxa_free_exception" || n == "__cxa_begin_catch" || n == "__cxa_end_catch") { if(!lhs.empty()) o << "  " << lhs << "(P)0;\n"; return; }
            if(n == "__cxa_atexit") { if(!lhs.empty()) o << "  " << lhs << "0;\n"; return; }
            if(n == "__cxa_guard_acquire") { o << "  " << lhs << "1;\n"; return; }
            if(n == "__cxa_guard_release" || n == "__cxa_guard_abort") return;
            if(n == "memcpy" || n == "memmove" || n == "memset") { frame_check(C.getArgOperand(0), A(2), C); }
        }
        string callee;
        if(f)
        {
            callee = fname(f);
        }
        else
        {
            callee = "((" + cty(C.getType()) + "(*)(";
            for(unsigned i = 0; i < C.arg_size(); i++) callee += string(i ? "," : "") + cty(C.getArgOperand(i)->getType());
            callee += C.arg_size() ? "))" : "void))";
            callee += "(" + val(C.getCalledOperand()) + "))";
        }
        o << "  " << lhs << callee << "(";
        for(unsigned i = 0; i < C.arg_size(); i++)
        {
            if(i) o << ",";
            o << A(i);
        }
        o << ");\n";
    }

    void emit_inst(Instruction& I)
    {
        string n = I.getType()->isVoidTy() ? "" : names[&I];
        auto A = [&](unsigned i) { return val(I.getOperand(i)); };
        string T = I.getType()->isVoidTy() ? "" : cty(I.getType());
        auto w1 = [&](const string& e) {
            // keep i1 and odd widths canonical
            unsigned b = I.getType()->isIntegerTy() ? I.getType()->getIntegerBitWidth() : 0;
            if(b == 1) o << "  " << n << " = (uint8_t)((" << e << ")&1);\n";
            else o << "  " << n << " = (" << T << ")(" << e << ");\n";
        };
        switch(I.getOpcode())
        {
            case Instruction::Alloca: return;
            case Instruction::PHI: return;
            case Instruction::Add: w1("(" + A(0) + ")+(" + A(1) + ")"); return;
            case Instruction::Sub:
            {
                auto* p = dyn_cast<PtrToIntOperator>(I.getOperand(0)); auto* q = dyn_cast<PtrToIntOperator>(I.getOperand(1));
                if(p && q) { w1("(int64_t)((char*)(" + val(p->getPointerOperand()) + ")-(char*)(" + val(q->getPointerOperand()) + "))"); return; }
                w1("(" + A(0) + ")-(" + A(1) + ")"); return;
            }
            case Instruction::Mul: w1("(" + A(0) + ")*(" + A(1) + ")"); return;
            case Instruction::UDiv: w1("(" + A(0) + ")/(" + A(1) + ")"); return;
            case Instruction::URem: w1("(" + A(0) + ")%(" + A(1) + ")"); return;
            case Instruction::SDiv: w1(S(I.getOperand(0)) + "/" + S(I.getOperand(1))); return;
            case Instruction::SRem: w1(S(I.getOperand(0)) + "%" + S(I.getOperand(1))); return;
            case Instruction::And: w1("(" + A(0) + ")&(" + A(1) + ")"); return;
            case Instruction::Or: w1("(" + A(0) + ")|(" + A(1) + ")"); return;
            case Instruction::Xor: w1("(" + A(0) + ")^(" + A(1) + ")"); return;
            case Instruction::Shl: w1("((" + T + ")(" + A(0) + "))<<(" + A(1) + ")"); return;
            case Instruction::LShr: w1("(" + A(0) + ")>>(" + A(1) + ")"); return;
            case Instruction::AShr: w1(S(I.getOperand(0)) + ">>(" + A(1) + ")"); return;
            case Instruction::FAdd: w1("(" + A(0) + ")+(" + A(1) + ")"); return;
            case Instruction::FSub: w1("(" + A(0) + ")-(" + A(1) + ")"); return;
            case Instruction::FMul: w1("(" + A(0) + ")*(" + A(1) + ")"); return;
            case Instruction::FDiv: w1("(" + A(0) + ")/(" + A(1) + ")"); return;
            case Instruction::FNeg: w1("-(" + A(0) + ")"); return;
            case Instruction::ICmp:
            {
                auto& c = cast<ICmpInst>(I);
                Type* t = c.getOperand(0)->getType();
                string op;
                switch(c.getPredicate())
                {
                    case ICmpInst::ICMP_EQ: op = "=="; break;
                    case ICmpInst::ICMP_NE: op = "!="; break;
                    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: op = ">"; break;
                    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: op = ">="; break;
                    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: op = "<"; break;
                    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: op = "<="; break;
                    default: die("icmp");
                }
                if(t->isPointerTy() && !c.isEquality()) o << "  " << n << " = (__vh_pcmp((P)(" << A(0) << "),(P)(" << A(1) << "))" << op << "0);\n";
                else if(!t->isPointerTy() && c.isSigned()) o << "  " << n << " = (" << S(I.getOperand(0)) << op << S(I.getOperand(1)) << ");\n";
                else o << "  " << n << " = ((" << A(0) << ")" << op << "(" << A(1) << "));\n";
                return;
            }
            case Instruction::FCmp:
            {
                auto& c = cast<FCmpInst>(I);
                string a = "(" + A(0) + ")", b = "(" + A(1) + ")", e;
                string un = "(" + a + "!=" + a + "||" + b + "!=" + b + ")";
                auto P = c.getPredicate();
                auto base = [&](CmpInst::Predicate p) -> string {
                    switch(p) {
                        case FCmpInst::FCMP_OEQ: return a + "==" + b;
                        case FCmpInst::FCMP_OGT: return a + ">" + b;
                        case FCmpInst::FCMP_OGE: return a + ">=" + b;
                        case FCmpInst::FCMP_OLT: return a + "<" + b;
                        case FCmpInst::FCMP_OLE: return a + "<=" + b;
                        case FCmpInst::FCMP_ONE: return "(" + a + "<" + b + "||" + a + ">" + b + ")";
                        default: return ""; }
                };
                if(P == FCmpInst::FCMP_UNE) e = a + "!=" + b;
                else if(P == FCmpInst::FCMP_UNO) e = un;
                else if(P == FCmpInst::FCMP_ORD) e = "!" + un;
                else if(P == FCmpInst::FCMP_UEQ) e = un + "||" + a + "==" + b;
                else if(P == FCmpInst::FCMP_UGT) e = un + "||" + a + ">" + b;
                else if(P == FCmpInst::FCMP_UGE) e = un + "||" + a + ">=" + b;
                else if(P == FCmpInst::FCMP_ULT) e = un + "||" + a + "<" + b;
                else if(P == FCmpInst::FCMP_ULE) e = un + "||" + a + "<=" + b;
                else e = base(P);
                o << "  " << n << " = (" << e << ");\n";
                return;
            }
            case Instruction::Trunc: w1("(" + A(0) + ")"); return;
            case Instruction::ZExt: w1("(" + T + ")(" + A(0) + ")"); return;
            case Instruction::SExt: w1("(" + sty(I.getType()->getIntegerBitWidth()) + ")" + S(I.getOperand(0))); return;
            case Instruction::FPToSI: w1("(" + sty(I.getType()->getIntegerBitWidth()) + ")(" + A(0) + ")"); return;
            case Instruction::FPToUI: w1("(" + A(0) + ")"); return;
            case Instruction::SIToFP: w1(S(I.getOperand(0))); return;
            case Instruction::UIToFP: w1("(" + A(0) + ")"); return;
            case Instruction::FPTrunc: case Instruction::FPExt: w1("(" + A(0) + ")"); return;
            case Instruction::PtrToInt: w1("(uint64_t)(" + A(0) + ")"); return;
            case Instruction::IntToPtr: o << "  " << n << " = (P)(" << A(0) << ");\n"; return;
            case Instruction::BitCast:
            {
                Type* s = I.getOperand(0)->getType();
                if(s == I.getType() || (s->isPointerTy() && I.getType()->isPointerTy())) { o << "  " << n << " = " << A(0) << ";\n"; return; }
                string t1 = "b" + std::to_string(tmp++);
                decls << "  " << cty(s) << " " << t1 << ";\n";
                o << "  " << t1 << " = " << A(0) << "; " << n << " = *(" << T << "*)&" << t1 << ";\n";
                return;
            }
            case Instruction::Freeze: o << "  " << n << " = " << A(0) << ";\n"; return;
            case Instruction::Select: o << "  " << n << " = (" << A(0) << ")?(" << A(1) << "):(" << A(2) << ");\n"; return;
            case Instruction::Load: o << "  " << n << " = *(" << T << "*)(" << A(0) << ");\n"; return;
            case Instruction::Store:
            {
                auto& s = cast<StoreInst>(I);
                frame_check(s.getPointerOperand(), std::to_string(DL->getTypeStoreSize(s.getValueOperand()->getType()).getFixedValue()), I);
                if(isa<UndefValue>(s.getValueOperand())) { }
                o << "  *(" << cty(s.getValueOperand()->getType()) << "*)(" << A(1) << ") = " << A(0) << ";\n";
                return;
            }
            case Instruction::GetElementPtr:
                o << "  " << n << " = " << gep(&I, cast<GetElementPtrInst>(I).getSourceElementType(), false) << ";\n"; return;
            case Instruction::ExtractValue:
            {
                auto& e = cast<ExtractValueInst>(I);
                string s = A(0);
                Type* t = e.getAggregateOperand()->getType();
                if(isa<Constant>(I.getOperand(0)))
                {
                    string t1 = "b" + std::to_string(tmp++);
                    decls << "  " << cty(t) << " " << t1 << ";\n"; o << "  " << t1 << " = " << s << ";\n"; s = t1;
                }
                for(unsigned i : e.indices())
                {
                    if(auto* st = dyn_cast<StructType>(t)) { s += ".f" + std::to_string(i); t = st->getElementType(i); }
                    else { s += (s.find(".f") == string::npos ? ".a[" : "[") + std::to_string(i) + "]"; t = cast<ArrayType>(t)->getElementType(); }
                }
                o << "  " << n << " = " << s << ";\n"; return;
            }
            case Instruction::InsertValue:
            {
                auto& e = cast<InsertValueInst>(I);
                if(!isa<UndefValue>(I.getOperand(0))) o << "  " << n << " = " << A(0) << ";\n";
                else o << "  " << n << " = " << nondet(I.getType()) << ";\n";
                string s = n;
                Type* t = I.getType();
                for(unsigned i : e.indices())
                {
                    if(auto* st = dyn_cast<StructType>(t)) { s += ".f" + std::to_string(i); t = st->getElementType(i); }
                    else { s += (s.find(".f") == string::npos ? ".a[" : "[") + std::to_string(i) + "]"; t = cast<ArrayType>(t)->getElementType(); }
                }
                o << "  " << s << " = " << A(1) << ";\n"; return;
            }
            case Instruction::Call: emit_call(cast<CallBase>(I)); return;
            case Instruction::Invoke:
                emit_call(cast<CallBase>(I));
                edge(I.getParent(), cast<InvokeInst>(I).getNormalDest(), "  ");
                return;
            case Instruction::LandingPad: case Instruction::Resume: o << "  __CPROVER_assume(0);\n"; return;
            case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: case Instruction::Fence: die("atomic");
            case Instruction::Ret:
                if(I.getNumOperands()) o << "  return " << A(0) << ";\n"; else o << "  return;\n";
                return;
            case Instruction::Unreachable: o << "  __CPROVER_assume(0);" << (F.getReturnType()->isVoidTy() ? " return;\n" : "\n"); return;
            case Instruction::Br:
            {
                auto& b = cast<BranchInst>(I);
                if(b.isUnconditional()) { edge(I.getParent(), b.getSuccessor(0), "  "); return; }
                o << "  if(" << val(b.getCondition()) << ") {\n";
                edge(I.getParent(), b.getSuccessor(0), "    ");
                o << "  } else {\n";
                edge(I.getParent(), b.getSuccessor(1), "    ");
                o << "  }\n";
                return;
            }
            case Instruction::Switch:
            {
                auto& s = cast<SwitchInst>(I);
                for(auto c : s.cases())
                {
                    o << "  if((" << val(s.getCondition()) << ")==" << val(c.getCaseValue()) << ") {\n";
                    edge(I.getParent(), c.getCaseSuccessor(), "    ");
                    o << "  }\n";
                }
                edge(I.getParent(), s.getDefaultDest(), "  ");
                return;
            }
            default: die(Twine("instruction ") + I.getOpcodeName());
        }
    }

    void run()
    {
        setup_names();
        if(!F.getName().starts_with("vhinv_") && !F.getName().starts_with("vhspec_")) plan_cuts();
        // reverse post order keeps forward gotos forward, so that only real loops are loops for cbmc
        std::vector<BasicBlock*> rpo;
        {
            std::set<BasicBlock*> seen; std::vector<BasicBlock*> po;
            std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) {
                if(!seen.insert(b).second) return;
                // visit loop exits first so that loop bodies are contiguous
                std::vector<BasicBlock*> su(succ_begin(b), succ_end(b));
                std::stable_sort(su.begin(), su.end(), [&](BasicBlock* x, BasicBlock* y) { return LI.getLoopDepth(x) < LI.getLoopDepth(y); });
                for(auto* s : su) dfs(s);
                po.push_back(b);
            };
            dfs(&F.getEntryBlock());
            rpo.assign(po.rbegin(), po.rend());
        }
        for(auto* B : rpo)
        {
            const Loop* L = LI.getLoopFor(B);
            if(L && L->getHeader() == B && cuts.count(L)) emit_cut_header(L);
            o << bl[B] << ": ;\n";
            for(auto& I : *B)
            {
                if(const DILocation* d = I.getDebugLoc().get())
                {
                    string k = std::to_string(d->getLine() ? d->getLine() : 1) + " \"" + d->getFilename().str() + "\"";
                    if(k != last_line) { o << "#line " << k << "\n"; last_line = k; }
                }
                emit_inst(I);
            }
        }
        string sig = cty(F.getReturnType()) + " " + fname(&F) + "(";
        for(unsigned i = 0; i < F.arg_size(); i++) sig += string(i ? "," : "") + cty(F.getArg(i)->getType()) + " a" + std::to_string(i);
        if(F.arg_size() == 0) sig += "void";
        sig += ")";
        string dem = demangle(F.getName().str());
        bool inv = F.getName().starts_with("vhinv_") || F.getName().starts_with("vhspec_");
        if(inv) body_out << "#pragma CPROVER check push\n#pragma CPROVER check disable \"pointer\"\n#pragma CPROVER check disable \"bounds\"\n";
        body_out << "/* " << dem << " */\n" << sig << "\n{\n" << decls.str() << o.str() << "}\n\n";
        if(inv) body_out << "#pragma CPROVER check pop\n";
    }
};

int main(int argc, char** argv)
{
    if(argc < 4) { errs() << "usage: irc in.bc out.c entry [--cut]\n"; return 3; }
    string entry = argv[3];
    for(int i = 4; i < argc; i++) if(string(argv[i]) == "--cut") opt_cut = true;
    LLVMContext& ctx = *new LLVMContext;
    SMDiagnostic err;
    M = parseIRFile(argv[1], err, ctx).release();
    if(!M) { err.print("irc", errs()); return 3; }
    Function* E = M->getFunction(entry);
    if(!E || E->isDeclaration()) { errs() << "irc: no entry " << entry << "\n"; return 4; }
    std::set<Function*> recursive;
    for(auto& f : *M)
    {
        f.removeFnAttr(Attribute::OptimizeNone);
        f.removeFnAttr(Attribute::NoInline);
        if(f.isDeclaration() || is_vh(&f)) { f.addFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::AlwaysInline); continue; }
        // directly recursive functions stay calls
        bool rec = false;
        for(auto& B : f) for(auto& I : B) if(auto* c = dyn_cast<CallBase>(&I)) if(c->getCalledFunction() == &f) rec = true;
        if(f.getName().starts_with("vhfn_")) { f.addFnAttr(Attribute::NoInline); f.removeFnAttr(Attribute::AlwaysInline); continue; }
        if(&f == E || rec) { f.removeFnAttr(Attribute::AlwaysInline); continue; }
        if(!f.hasFnAttribute(Attribute::Naked)) f.addFnAttr(Attribute::AlwaysInline);
        // other harness entries are not needed
        if(f.getName().starts_with("vh_")) { f.removeFnAttr(Attribute::AlwaysInline); }
    }
    // the functions of /repo that this entry reaches: reported as its functions under contract
    {
        std::set<Function*> seen; std::vector<Function*> wl{E};
        while(!wl.empty())
        {
            Function* f = wl.back(); wl.pop_back();
            if(!seen.insert(f).second || f->isDeclaration()) continue;
            if(auto* sp = f->getSubprogram())
                if(sp->getFilename().contains("/src/estd/"))
                    std::cout << "function\t" << demangle(f->getName().str()) << "\t" << sp->getFilename().str() << ":" << sp->getLine() << "\n";
            for(auto& B : *f) for(auto& I : B)
            {
                if(auto* c = dyn_cast<CallBase>(&I)) if(auto* g = c->getCalledFunction()) wl.push_back(g);
                for(auto& op : I.operands()) if(auto* g = dyn_cast<Function>(op->stripPointerCasts())) wl.push_back(g);
            }
        }
    }
    // drop everything not reachable from the entry (and the templates) before inlining
    for(auto& f : *M)
        if(!f.isDeclaration() && &f != E && !f.getName().starts_with("vhinv_") && !f.getName().starts_with("vhspec_"))
        {
            f.setComdat(nullptr);
            f.setLinkage(GlobalValue::InternalLinkage);
        }
    for(auto& g : M->globals()) { if(!g.isDeclaration()) { g.setComdat(nullptr); g.setLinkage(GlobalValue::InternalLinkage); } }
    if(auto* u = M->getGlobalVariable("llvm.used")) u->eraseFromParent();
    if(auto* u = M->getGlobalVariable("llvm.compiler.used")) u->eraseFromParent();
    if(auto* u = M->getGlobalVariable("llvm.global_ctors")) u->eraseFromParent();
    {
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        MPM.addPass(GlobalDCEPass());
        MPM.addPass(AlwaysInlinerPass(false));
        MPM.addPass(GlobalDCEPass());
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass());
        FPM.addPass(SCCPPass());
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(ADCEPass());
        FPM.addPass(LoopSimplifyPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.addPass(GlobalDCEPass());
        MPM.run(*M, MAM);
    }
    if(verifyModule(*M, &errs())) return 3;
    DL = &M->getDataLayout();
    std::ofstream ll(string(argv[2]) + ".ll");
    { string s; raw_string_ostream os(s); M->print(os, nullptr); ll << os.str(); }

    fname(E);
    size_t i = 0, g = 0;
    while(i < fn_queue.size() || g < gv_queue.size())
    {
        if(g < gv_queue.size())
        {
            const GlobalVariable* v = gv_queue[g++];
            std::ostringstream d;
            string decl = memdecl(v->getValueType(), gname(v));
            if(v->hasInitializer() && !isa<ConstantAggregateZero>(v->getInitializer()) && !isa<UndefValue>(v->getInitializer()))
            {
                string init = constagg_init(v->getInitializer());
                proto_out << "extern " << decl << ";\n";
                glob_out << decl << " = " << (v->getValueType()->isArrayTy() ? "{" + init + "}" : init) << ";\n";
            }
            else
            {
                proto_out << "extern " << decl << ";\n";
                if(!v->isDeclaration()) glob_out << decl << ";\n";
            }
            continue;
        }
        const Function* f = fn_queue[i++];
        StringRef n = f->getName();
        if(!f->isDeclaration())
        {
            string sig = cty(f->getReturnType()) + " " + san(n) + "(";
            for(unsigned k = 0; k < f->arg_size(); k++) sig += string(k ? "," : "") + cty(f->getArg(k)->getType());
            if(f->arg_size() == 0) sig += "void";
            proto_out << sig << ");\n";
            FnEmit e(*const_cast<Function*>(f));
            e.run();
        }
        else
        {
            if(n.starts_with("__vh_")) continue;
            string sig = cty(f->getReturnType()) + " " + san(n) + "(";
            for(unsigned k = 0; k < f->arg_size(); k++) sig += string(k ? "," : "") + cty(f->getArg(k)->getType());
            if(f->arg_size() == 0) sig += "void";
            proto_out << sig << "); /* external, no body: " << demangle(n.str()) << " */\n";
            std::cout << "external\t" << demangle(n.str()) << "\n";
        }
    }
    std::ofstream out(argv[2]);
    out << "/* generated by irc from the LLVM IR of the real code; do not edit */\n#include \"vh_rt.h\"\n"
        << types_out.str() << "\n" << proto_out.str() << "\n" << glob_out.str() << "\n" << body_out.str();
    std::ofstream cl(string(argv[2]) + ".cands");
    cl << cand_list.str();
    return 0;
}
