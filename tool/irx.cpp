// irx: normalise selected functions of an LLVM module and dump them as JSON.
//
// For every "entry" named in a policy file, the function is cloned, every direct call to a
// function with a body that the policy does not keep opaque is inlined (to a fixpoint,
// with SROA / EarlyCSE / InstCombine / SimplifyCFG between rounds), and the resulting SSA
// form is written out. Nothing is executed: the output is the program's own intermediate
// representation, with helper functions, lambdas, references and local variables dissolved.
#include "llvm/ADT/SmallString.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/SimplifyCFGOptions.h"
#include <fstream>
#include <iostream>
#include <map>
#include <regex>
#include <set>
#include <sstream>

using namespace llvm;

static std::string stripGroups(StringRef s) {
    // Remove <...> and (...) groups, keeping operator names and lambda markers intact.
    std::string out;
    int depth = 0;
    size_t n = s.size();
    for (size_t i = 0; i < n; ++i) {
        if (depth == 0 && s.substr(i).starts_with("operator")) {
            size_t j = i + 8;
            out += "operator";
            if (s.substr(j).starts_with("()")) { out += "()"; j += 2; }
            else while (j < n && strchr("<>=-!+*&|^%/~[],", s[j])) {
                // an opening '<' after a complete operator starts template arguments
                if (s[j] == '<' && j > i + 8 && s[j - 1] != '<') break;
                if (s[j] == '<' && j + 1 < n && s[j + 1] != '<' && s[j + 1] != '=' &&
                    s[j + 1] != '(' && j > i + 8) break;
                out += s[j++];
                if (j < n && s[j] == ' ') break;
            }
            i = j - 1;
            continue;
        }
        char c = s[i];
        if (c == '(' && s.substr(i).starts_with("(anonymous namespace)") && depth == 0) {
            out += "(anon)"; i += strlen("(anonymous namespace)") - 1; continue;
        }
        if (c == '<' || c == '(') { ++depth; continue; }
        if (c == '>' || c == ')') { if (depth > 0) --depth; continue; }
        if (depth == 0) out += c;
    }
    return out;
}

static std::map<std::string, std::string> simpleCache;
static std::string simpleName(StringRef mangled) {
    std::string key = mangled.str();
    auto it = simpleCache.find(key);
    if (it != simpleCache.end()) return it->second;
    std::string res = key;
    ItaniumPartialDemangler d;
    if (!d.partialDemangle(key.c_str())) {
        if (d.isFunction()) {
            size_t n = 0; char* ctx = d.getFunctionDeclContextName(nullptr, &n);
            size_t m = 0; char* base = d.getFunctionBaseName(nullptr, &m);
            std::string c = ctx ? stripGroups(ctx) : "", b = base ? base : "";
            // strip [abi:...]
            auto p = b.find("[abi:"); if (p != std::string::npos) b = b.substr(0, p);
            while (true) { auto q = c.find("[abi:"); if (q == std::string::npos) break; auto e = c.find(']', q); c.erase(q, e - q + 1); }
            // drop return types / cv qualifiers that precede / follow the context
            std::string c2; int sp = -1;
            for (size_t i = 0; i < c.size(); ++i) if (c[i] == ' ' && !(i > 0 && c[i-1] == ':') ) sp = i;
            (void)sp;
            res = c.empty() ? b : c + "::" + b;
            free(ctx); free(base);
        } else {
            size_t n = 0; char* f = d.finishDemangle(nullptr, &n);
            if (f) { res = f; free(f); }
        }
    }
    // normalise " const::" introduced by lambdas in const member functions
    size_t q; while ((q = res.find(" const::")) != std::string::npos) res.erase(q, 6);
    simpleCache[key] = res;
    return res;
}

struct Policy {
    struct Entry { std::string label; std::regex re; std::vector<std::regex> opaque, inl; int max = 1000; };
    std::vector<Entry> entries;
    std::vector<std::regex> opaque;
    std::vector<std::regex> inl; // force inline (wins over the global opaque list)
    std::vector<std::pair<std::regex, std::regex>> models; // calls of .first (simple name) go to .second (demangled name)
    bool isOpaque(const Entry& e, const std::string& s) const {
        for (auto& r : e.opaque) if (std::regex_search(s, r)) return true;
        for (auto& r : e.inl) if (std::regex_search(s, r)) return false;
        for (auto& r : inl) if (std::regex_search(s, r)) return false;
        for (auto& r : opaque) if (std::regex_search(s, r)) return true;
        return false;
    }
};

static Policy readPolicy(const char* path) {
    Policy p; std::ifstream in(path); std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        auto sp = line.find(' '); auto cmd = line.substr(0, sp), rest = line.substr(sp + 1);
        if (cmd == "opaque") p.opaque.emplace_back(rest);
        else if (cmd == "inline") p.inl.emplace_back(rest);
        else if (cmd == "model") { auto s2 = rest.find(' '); p.models.emplace_back(std::regex(rest.substr(0, s2)), std::regex(rest.substr(s2 + 1))); }
        else if (cmd == "entry") {
            auto s2 = rest.find(' ');
            Policy::Entry e; e.label = rest.substr(0, s2); e.re = std::regex(rest.substr(s2 + 1));
            p.entries.push_back(std::move(e));
        } else if (cmd == "+opaque") p.entries.back().opaque.emplace_back(rest);
        else if (cmd == "+inline") p.entries.back().inl.emplace_back(rest);
        else { errs() << "bad policy line: " << line << "\n"; exit(3); }
    }
    return p;
}

static bool recursive(CallBase* cb, Function* callee) {
    auto* sp = callee->getSubprogram();
    if (!sp) return false;
    if (cb->getFunction()->getSubprogram() == sp) return true;
    const DILocation* l = cb->getDebugLoc();
    int n = 0;
    for (; l; l = l->getInlinedAt()) if (l->getScope()->getSubprogram() == sp) return true; else if (++n > 60) return true;
    return false;
}

struct Simplifier {
    PassBuilder pb; LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    FunctionPassManager fpm;
    Simplifier() {
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        fpm.addPass(EarlyCSEPass(true));
        fpm.addPass(InstCombinePass());
        SimplifyCFGOptions o; o.hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false).forwardSwitchCondToPhi(false).bonusInstThreshold(0).speculateBlocks(false).setSimplifyCondBranch(true).needCanonicalLoops(true);
        fpm.addPass(SimplifyCFGPass(o));
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        fpm.addPass(EarlyCSEPass(true));
    }
    void run(Function& f) { fpm.run(f, fam); fam.clear(); }
};

static json::Value jstr(const std::string& s) { return json::Value(json::fixUTF8(s)); }

struct Dumper {
    const Module& M; const DataLayout& DL;
    std::map<const Value*, int> ids;
    Dumper(const Module& m) : M(m), DL(m.getDataLayout()) {}

    std::string tyStr(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return s; }

    // scalar leaves of a small constant aggregate (integers as strings, pointers to strings as {"str"})
    bool flatten(const Constant* c, json::Array& out) {
        if (out.size() > 64) return false;
        if (auto* ci = dyn_cast<ConstantInt>(c)) { SmallString<32> s; ci->getValue().toStringSigned(s); out.push_back(std::string(s.str())); return true; }
        if (isa<ConstantFP>(c) || isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<Function>(c)) { out.push_back(nullptr); return true; }
        if (auto* g = dyn_cast<GlobalVariable>(c)) {
            if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantDataArray>(g->getInitializer())) if (ca->isString()) { out.push_back(json::Object{{"str", jstr(ca->isCString() ? ca->getAsCString().str() : ca->getAsString().str())}}); return true; }
            out.push_back(nullptr); return true;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { if (cd->isString() || cd->getNumElements() > 32) return false; for (unsigned i = 0; i < cd->getNumElements(); i++) if (!flatten(cd->getElementAsConstant(i), out)) return false; return true; }
        if (isa<ConstantAggregate>(c)) { for (auto& u : c->operands()) if (!flatten(cast<Constant>(u), out)) return false; return true; }
        if (auto* z = dyn_cast<ConstantAggregateZero>(c)) { auto n = z->getElementCount().getFixedValue(); if (n > 32) return false; for (unsigned i = 0; i < n; i++) if (!flatten(z->getElementValue(i), out)) return false; return true; }
        out.push_back(nullptr); return true;
    }

    // floating-point leaves of a constant aggregate
    void floats(const Constant* c, json::Array& out, int d = 0) {
        if (out.size() > 64 || d > 6) return;
        if (auto* cf = dyn_cast<ConstantFP>(c)) { SmallString<32> s; cf->getValueAPF().toString(s); out.push_back(std::string(s.str())); }
        else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { if (cd->getElementType()->isFloatingPointTy()) for (unsigned i = 0; i < cd->getNumElements() && i < 64; i++) floats(cd->getElementAsConstant(i), out, d + 1); }
        else if (isa<ConstantAggregate>(c)) for (auto& u : c->operands()) if (auto* k = dyn_cast<Constant>(&u)) floats(k, out, d + 1);
    }

    json::Value constant(const Constant* c, int depth = 0) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            SmallString<32> s; ci->getValue().toStringSigned(s);
            return json::Object{{"c", std::string(s.str())}};
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) { SmallString<32> s; cf->getValueAPF().toString(s); return json::Object{{"cf", std::string(s.str())}}; }
        if (isa<ConstantPointerNull>(c)) return json::Object{{"null", true}};
        if (isa<UndefValue>(c)) return json::Object{{"undef", true}};
        if (auto* f = dyn_cast<Function>(c)) return json::Object{{"f", f->getName().str()}, {"s", jstr(simpleName(f->getName()))}};
        if (auto* g = dyn_cast<GlobalVariable>(c)) {
            json::Object o{{"g", g->getName().str()}, {"s", jstr(demangle(g->getName().str()))}};
            if (g->hasInitializer()) if (auto* ca = dyn_cast<ConstantDataArray>(g->getInitializer())) if (ca->isString()) o["str"] = jstr(ca->isCString() ? ca->getAsCString().str() : ca->getAsString().str());
            if (g->hasInitializer() && g->isConstant()) { json::Array fl; if (flatten(g->getInitializer(), fl) && fl.size()) o["init"] = std::move(fl); }
            if (g->hasInitializer() && g->isConstant()) { json::Array fp; floats(g->getInitializer(), fp); if (fp.size()) o["fp"] = std::move(fp); }
            if (g->hasInitializer() && g->isConstant()) if (auto* ci = dyn_cast<ConstantInt>(g->getInitializer())) { SmallString<32> s; ci->getValue().toStringSigned(s); o["val"] = std::string(s.str()); }
            return o;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (auto* gep = dyn_cast<GEPOperator>(ce)) {
                APInt off(DL.getIndexSizeInBits(0), 0);
                if (gep->accumulateConstantOffset(DL, off))
                    return json::Object{{"gep", constant(cast<Constant>(gep->getPointerOperand()))}, {"off", off.getSExtValue()}};
            }
            if (ce->isCast()) return constant(ce->getOperand(0));
        }
        if (depth < 3 && (isa<ConstantDataVector>(c) || isa<ConstantVector>(c))) {
            json::Array a; unsigned n = cast<FixedVectorType>(c->getType())->getNumElements();
            for (unsigned i = 0; i < n; ++i) a.push_back(constant(c->getAggregateElement(i), depth + 1));
            return json::Object{{"vec", std::move(a)}};
        }
        if (isa<ConstantAggregateZero>(c)) return json::Object{{"zero", true}};
        if (depth < 3 && (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataArray>(c))) {
            json::Array a; for (unsigned i = 0;; ++i) { auto* e = c->getAggregateElement(i); if (!e) break; a.push_back(constant(e, depth + 1)); if (i > 256) break; }
            return json::Object{{"agg", std::move(a)}};
        }
        std::string s; raw_string_ostream o(s); c->printAsOperand(o, true, &M);
        return json::Object{{"k", jstr(s)}};
    }
    json::Value ref(const Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constant(c);
        if (auto* a = dyn_cast<Argument>(v)) return json::Object{{"a", (int64_t)a->getArgNo()}};
        if (isa<BasicBlock>(v)) return json::Object{{"bb", ids[v]}};
        auto it = ids.find(v); if (it != ids.end()) return json::Object{{"v", it->second}};
        return json::Object{{"meta", true}};
    }
    static const char* ordering(AtomicOrdering o) { return toIRString(o); }

    json::Value dump(Function& f, const std::string& label, const std::string& orig) {
        ids.clear(); int n = 0;
        for (auto& b : f) ids[&b] = n++;
        n = 0;
        for (auto& b : f) for (auto& i : b) ids[&i] = n++;
        json::Object out{{"label", label}, {"name", jstr(demangle(orig))}, {"simple", jstr(simpleName(orig))}, {"mangled", orig}};
        // arguments with debug types
        json::Array args;
        auto* sp = f.getSubprogram();
        std::vector<std::string> argTy;
        if (sp && sp->getType()) { auto ta = sp->getType()->getTypeArray(); for (unsigned i = 1; i < ta.size(); ++i) argTy.push_back(diType(ta[i])); }
        std::map<const Value*, json::Array> argVars;
        std::map<const Value*, const DILocalVariable*> allocaVar;
        for (auto& b : f) for (auto& i : b) {
            if (auto* dd = dyn_cast<DbgDeclareInst>(&i)) { if (auto* ad = dd->getAddress()) if (!allocaVar.count(ad)) allocaVar[ad] = dd->getVariable(); 
                if (auto* ad = dd->getAddress()) if (isa<Argument>(ad)) argVars[ad].push_back(json::Object{{"name", dd->getVariable()->getName().str()}, {"ty", jstr(diType(dd->getVariable()->getType()))}, {"off", (int64_t)0}, {"inl", dd->getDebugLoc()->getInlinedAt() != nullptr}}); }
            else if (auto* dv = dyn_cast<DbgValueInst>(&i)) {
                if (dv->hasArgList() || dv->getNumVariableLocationOps() != 1) continue;
                auto* v = dv->getVariableLocationOp(0); if (!v || !isa<Argument>(v)) continue;
                if (dv->getDebugLoc()->getInlinedAt()) continue;
                int64_t off = 0; if (auto fr = dv->getExpression()->getFragmentInfo()) off = fr->OffsetInBits / 8;
                argVars[v].push_back(json::Object{{"name", dv->getVariable()->getName().str()}, {"ty", jstr(diType(dv->getVariable()->getType()))}, {"off", off}, {"inl", false}});
            }
        }
        for (auto& a : f.args()) {
            json::Object o{{"ty", tyStr(a.getType())}, {"ir", a.getName().str()}};
            if (argVars.count(&a)) o["vars"] = std::move(argVars[&a]);
            if (a.hasStructRetAttr()) o["sret"] = true;
            o["byval"] = a.hasByValAttr();
            args.push_back(std::move(o));
        }
        out["args"] = std::move(args);
        json::Array at; for (auto& s : argTy) at.push_back(jstr(s)); out["ditypes"] = std::move(at);
        std::map<std::string, std::string> argNames;
        if (sp) { json::Object nm; for (auto* v : sp->getRetainedNodes()) if (auto* lv = dyn_cast<DILocalVariable>(v)) if (lv->isParameter()) nm[std::to_string(lv->getArg())] = lv->getName().str(); out["params"] = std::move(nm); out["line"] = (int64_t)sp->getLine(); out["file"] = sp->getFilename().str(); }
        json::Array blocks;
        for (auto& b : f) {
            json::Array ins;
            for (auto& i : b) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&i)) {
                    auto id = ii->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume) continue;
                }
                json::Object o{{"i", ids[&i]}, {"op", i.getOpcodeName()}, {"ty", tyStr(i.getType())}};
                if (auto* l = i.getDebugLoc().get()) {
                    o["file"] = l->getFilename().str(); o["line"] = (int64_t)l->getLine();
                    auto* s = l->getScope()->getSubprogram();
                    o["in"] = s ? jstr(s->getLinkageName().empty() ? s->getName().str() : simpleName(s->getLinkageName())) : jstr("");
                    json::Array chain; for (auto* q = l->getInlinedAt(); q; q = q->getInlinedAt()) { auto* ss = q->getScope()->getSubprogram(); chain.push_back(jstr((ss ? (ss->getLinkageName().empty() ? ss->getName().str() : simpleName(ss->getLinkageName())) : std::string()) + ":" + std::to_string(q->getLine()))); }
                    if (!chain.empty()) o["chain"] = std::move(chain);
                }
                if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                    o["base"] = ref(g->getPointerOperand());
                    MapVector<Value*, APInt> var; APInt off(DL.getIndexSizeInBits(0), 0);
                    if (cast<GEPOperator>(g)->collectOffset(DL, DL.getIndexSizeInBits(0), var, off)) {
                        o["off"] = off.getSExtValue();
                        json::Array vs; for (auto& kv : var) vs.push_back(json::Array{ref(kv.first), kv.second.getSExtValue()});
                        o["var"] = std::move(vs);
                    }
                    o["sty"] = tyStr(g->getSourceElementType());
                } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                    auto* callee = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* cf = dyn_cast<Function>(callee)) { o["callee"] = cf->getName().str(); o["s"] = jstr(simpleName(cf->getName())); o["d"] = jstr(demangle(cf->getName().str())); }
                    else if (cb->isInlineAsm()) o["asm"] = true;
                    else o["ind"] = ref(callee);
                    json::Array a; for (auto& x : cb->args()) a.push_back(ref(x.get())); o["args"] = std::move(a);
                    if (cb->doesNotReturn()) o["noreturn"] = true;
                    if (cb->hasStructRetAttr()) { o["sret"] = true; for (unsigned q = 0; q < cb->arg_size() && q < 2; q++) if (cb->paramHasAttr(q, Attribute::StructRet)) o["sretsize"] = (int64_t)DL.getTypeAllocSize(cb->getParamStructRetType(q)).getFixedValue(); }
                } else if (auto* ph = dyn_cast<PHINode>(&i)) {
                    json::Array a; for (unsigned k = 0; k < ph->getNumIncomingValues(); ++k) a.push_back(json::Array{ref(ph->getIncomingValue(k)), ids[ph->getIncomingBlock(k)]});
                    o["inc"] = std::move(a);
                } else {
                    json::Array a; for (auto& x : i.operands()) if (!isa<BasicBlock>(x.get())) a.push_back(ref(x.get())); o["ops"] = std::move(a);
                }
                if (auto* c = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                if (auto* l = dyn_cast<LoadInst>(&i)) { if (l->isAtomic()) o["atomic"] = ordering(l->getOrdering()); o["size"] = (int64_t)DL.getTypeStoreSize(l->getType()).getFixedValue(); if (l->isVolatile()) o["volatile"] = true; }
                if (auto* s = dyn_cast<StoreInst>(&i)) { if (s->isAtomic()) o["atomic"] = ordering(s->getOrdering()); o["size"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue(); }
                if (auto* r = dyn_cast<AtomicRMWInst>(&i)) { o["atomic"] = ordering(r->getOrdering()); o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str(); }
                if (auto* x = dyn_cast<AtomicCmpXchgInst>(&i)) { o["atomic"] = ordering(x->getSuccessOrdering()); o["fail"] = ordering(x->getFailureOrdering()); o["weak"] = x->isWeak(); }
                if (auto* al = dyn_cast<AllocaInst>(&i)) { o["aty"] = tyStr(al->getAllocatedType()); o["asize"] = (int64_t)DL.getTypeAllocSize(al->getAllocatedType()).getFixedValue(); auto it = allocaVar.find(al); if (it != allocaVar.end()) { o["var"] = it->second->getName().str(); o["vty"] = jstr(diType(it->second->getType())); } }
                if (auto* pe = dyn_cast<PossiblyExactOperator>(&i)) if (pe->isExact()) o["exact"] = true;
                if (auto* ov = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ov->hasNoUnsignedWrap()) o["nuw"] = true; if (ov->hasNoSignedWrap()) o["nsw"] = true; }
                if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { json::Array a; for (auto k : ev->indices()) a.push_back((int64_t)k); o["idx"] = std::move(a); }
                if (auto* iv = dyn_cast<InsertValueInst>(&i)) { json::Array a; for (auto k : iv->indices()) a.push_back((int64_t)k); o["idx"] = std::move(a); }
                if (auto* sv = dyn_cast<ShuffleVectorInst>(&i)) { json::Array a; for (int k : sv->getShuffleMask()) a.push_back((int64_t)k); o["mask"] = std::move(a); }
                if (auto* sw = dyn_cast<SwitchInst>(&i)) { json::Array a; for (auto& c : sw->cases()) a.push_back(json::Array{constant(c.getCaseValue()), ids[c.getCaseSuccessor()]}); o["cases"] = std::move(a); o["default"] = ids[sw->getDefaultDest()]; }
                if (auto* iv = dyn_cast<InvokeInst>(&i)) { o["normal"] = ids[iv->getNormalDest()]; o["unwind"] = ids[iv->getUnwindDest()]; }
                if (auto* lp = dyn_cast<LandingPadInst>(&i)) { o["cleanup"] = lp->isCleanup(); json::Array a; for (unsigned k = 0; k < lp->getNumClauses(); ++k) a.push_back(constant(lp->getClause(k))); o["clauses"] = std::move(a); }
                if (auto* br = dyn_cast<BranchInst>(&i)) { o["cond"] = br->isConditional(); }
                ins.push_back(std::move(o));
            }
            json::Array succ; for (auto* s : successors(&b)) succ.push_back(ids[s]);
            blocks.push_back(json::Object{{"b", ids[&b]}, {"ins", std::move(ins)}, {"succ", std::move(succ)}});
        }
        out["blocks"] = std::move(blocks);
        return out;
    }

    static std::string scopeName(const DIScope* s) {
        if (!s) return "";
        if (auto* ns = dyn_cast<DINamespace>(s)) { auto p = scopeName(ns->getScope()); auto n = ns->getName().str(); return p.empty() ? n : p + "::" + n; }
        if (auto* t = dyn_cast<DIType>(s)) { auto p = scopeName(t->getScope()); auto n = t->getName().str(); return p.empty() ? n : p + "::" + n; }
        if (auto* sp = dyn_cast<DISubprogram>(s)) return sp->getName().str();
        return "";
    }
    static std::string diType(const DIType* t, int depth = 0) {
        if (!t) return "void"; if (depth > 12) return "?";
        if (auto* d = dyn_cast<DIDerivedType>(t)) {
            auto inner = diType(d->getBaseType(), depth + 1);
            switch (d->getTag()) {
                case dwarf::DW_TAG_pointer_type: return inner + "*";
                case dwarf::DW_TAG_reference_type: return inner + "&";
                case dwarf::DW_TAG_rvalue_reference_type: return inner + "&&";
                case dwarf::DW_TAG_const_type: return "const " + inner;
                case dwarf::DW_TAG_typedef: return inner;
                default: return inner;
            }
        }
        auto p = scopeName(t->getScope()); auto n = t->getName().str();
        return p.empty() ? n : p + "::" + n;
    }
};

int main(int argc, char** argv) {
    if (argc < 4) { errs() << "usage: irx module.bc policy out.json\n"; return 3; }
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irx", errs()); return 3; }
    Policy pol = readPolicy(argv[2]);
    Simplifier S;
    std::vector<Function*> defs;
    for (auto& f : *M) if (!f.isDeclaration()) defs.push_back(&f);
    json::Array fns;
    std::map<std::string, int> matched;
    std::set<std::string> listed;
    std::set<Function*> presimplified;
    Dumper D(*M);
    json::Object modelled;
    for (auto& md : pol.models) {
        Function* to = nullptr;
        for (auto* f : defs) if (std::regex_search(demangle(f->getName().str()), md.second)) to = f;
        if (!to) continue;
        for (auto& f : *M) if (&f != to && std::regex_search(simpleName(f.getName()), md.first) && f.getFunctionType() == to->getFunctionType()) {
            modelled[json::fixUTF8(simpleName(f.getName()))] = to->getName().str();
            f.replaceAllUsesWith(to);
        }
    }
    for (auto& e : pol.entries) {
        int cnt = 0;
        for (auto* f : defs) {
            std::string dm = demangle(f->getName().str());
            if (!std::regex_search(dm, e.re)) continue;
            ++cnt;
            ValueToValueMapTy vm;
            auto* c = CloneFunction(f, vm);
            c->setName(f->getName() + ".irx");
            c->removeFnAttr(Attribute::OptimizeNone); 
            int total = 0; json::Array inlinedNames; std::set<std::string> inlinedSet;
            bool capped = false;
            for (int round = 0; round < 60; ++round) {
                S.run(*c);
                std::vector<CallBase*> work;
                for (auto& i : instructions(c)) if (auto* cb = dyn_cast<CallBase>(&i)) work.push_back(cb);
                bool any = false;
                for (auto* cb : work) {
                    auto* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                    if (!callee || callee->isDeclaration() || callee == c || callee == f) continue;
                    if (callee->isVarArg()) continue;
                    if (callee->getFunctionType() != cb->getFunctionType()) continue;
                    auto sn = simpleName(callee->getName());
                    if (pol.isOpaque(e, sn)) continue;
                    if (recursive(cb, callee)) continue;
                    if (c->getInstructionCount() > 60000) { capped = true; break; }
                    if (presimplified.insert(callee).second) { callee->removeFnAttr(Attribute::OptimizeNone); S.run(*callee); }
                    InlineFunctionInfo ifi;
                    auto r = InlineFunction(*cb, ifi);
                    if (r.isSuccess()) { any = true; ++total; if (inlinedSet.insert(sn).second) inlinedNames.push_back(jstr(sn)); }
                }
                if (!any) break;
            }
            S.run(*c);
            if (verifyFunction(*c, &errs())) { errs() << "irx: broken function " << dm << "\n"; return 3; }
            auto v = D.dump(*c, e.label, f->getName().str());
            v.getAsObject()->insert({"inlined", total}); v.getAsObject()->insert({"inlined_names", std::move(inlinedNames)}); v.getAsObject()->insert({"capped", capped});
            fns.push_back(std::move(v));
            c->eraseFromParent();
        }
        matched[e.label] += cnt;
    }
    json::Object out; out["functions"] = std::move(fns);
    json::Object mt; for (auto& kv : matched) mt[kv.first] = kv.second; out["matched"] = std::move(mt);
    out["modelled"] = std::move(modelled);
    // struct layouts
    DebugInfoFinder fin; fin.processModule(*M);
    json::Object lay;
    for (auto* t : fin.types()) {
        auto* ct = dyn_cast<DICompositeType>(t);
        if (!ct || (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type)) continue;
        if (ct->isForwardDecl()) continue;
        auto n = Dumper::diType(ct);
        json::Array ms;
        for (auto* e : ct->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) {
            if (d->isStaticMember()) continue;
            if (d->getTag() == dwarf::DW_TAG_member) ms.push_back(json::Array{(int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getBaseType() ? d->getSizeInBits() / 8 : 0), d->getName().str(), jstr(Dumper::diType(d->getBaseType()))});
            else if (d->getTag() == dwarf::DW_TAG_inheritance) ms.push_back(json::Array{(int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0), "<base>", jstr(Dumper::diType(d->getBaseType()))});
        }
        lay[json::fixUTF8(n)] = json::Object{{"size", (int64_t)(ct->getSizeInBits() / 8)}, {"members", std::move(ms)}, {"file", ct->getFilename().str()}, {"line", (int64_t)ct->getLine()}};
    }
    out["layouts"] = std::move(lay);
    // enumerations
    json::Object en;
    for (auto* t : fin.types()) if (auto* ct = dyn_cast<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
        auto nm = Dumper::diType(ct); if (nm.compare(0, 5, "svs::") != 0) continue;
        json::Object vals; for (auto* e : ct->getElements()) if (auto* de = dyn_cast<DIEnumerator>(e)) vals[de->getName().str()] = de->getValue().getSExtValue();
        en[nm] = std::move(vals);
    }
    out["enums"] = std::move(en);
    json::Object vt;
    for (auto& g : M->globals()) if (g.getName().starts_with("_ZTV") && g.hasInitializer()) {
        auto dn = demangle(g.getName().str()); if (dn.find("svs::") == std::string::npos) continue;
        json::Array a; if (auto* cs = dyn_cast<ConstantStruct>(g.getInitializer())) if (cs->getNumOperands()) if (auto* ca = dyn_cast<ConstantArray>(cs->getOperand(0))) for (auto& x : ca->operands()) { auto* v = x.get()->stripPointerCasts(); a.push_back(isa<Function>(v) ? jstr(v->getName().str()) : jstr("")); }
        vt[json::fixUTF8(dn)] = std::move(a);
    }
    out["vtables"] = std::move(vt);
    json::Array all; for (auto* f : defs) if (f->getName().contains("svs")) all.push_back(json::Array{f->getName().str(), jstr(simpleName(f->getName()))});
    out["defined"] = std::move(all);
    std::error_code ec; raw_fd_ostream os(argv[3], ec); os << json::Value(std::move(out)); os.close();
    return 0;
}
