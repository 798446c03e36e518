// irtool: links bitcode modules, inlines the analysed project's own helper
// functions into the requested roots (so that extracting or inlining a helper
// does not change what is analysed), normalises them with LLVM's scalar
// passes and dumps the roots and constant globals as JSON.  Nothing is run.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <iostream>
using namespace llvm;

static const DataLayout *DL;
static std::string dem(StringRef n) { return demangle(n.str()); }

static json::Value constBytes(const Constant *C, uint64_t size) {
    // array of byte values, or strings "&global" markers are given as relocs
    std::vector<int> bytes(size, 0);
    json::Array relocs;
    std::function<void(const Constant *, uint64_t)> go = [&](const Constant *c,
                                                             uint64_t off) {
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) ||
            isa<ConstantPointerNull>(c))
            return;
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
            APInt v = ci->getValue();
            unsigned n = DL->getTypeStoreSize(c->getType());
            APInt w = v.zext(n * 8 > v.getBitWidth() ? n * 8 : v.getBitWidth());
            for (unsigned i = 0; i < n && off + i < size; i++)
                bytes[off + i] = (int)w.extractBitsAsZExtValue(8, i * 8);
            return;
        }
        if (auto *cf = dyn_cast<ConstantFP>(c)) {
            APInt v = cf->getValueAPF().bitcastToAPInt();
            for (unsigned i = 0; i < v.getBitWidth() / 8 && off + i < size; i++)
                bytes[off + i] = (int)v.extractBitsAsZExtValue(8, i * 8);
            return;
        }
        if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
            uint64_t es = cds->getElementByteSize();
            for (unsigned i = 0; i < cds->getNumElements(); i++)
                go(cds->getElementAsConstant(i), off + i * es);
            return;
        }
        if (auto *ca = dyn_cast<ConstantArray>(c)) {
            uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
            for (unsigned i = 0; i < ca->getNumOperands(); i++)
                go(ca->getOperand(i), off + i * es);
            return;
        }
        if (auto *cs = dyn_cast<ConstantStruct>(c)) {
            auto *sl = DL->getStructLayout(cs->getType());
            for (unsigned i = 0; i < cs->getNumOperands(); i++)
                go(cs->getOperand(i), off + sl->getElementOffset(i));
            return;
        }
        APInt o(64, 0);
        const Value *b = c->stripAndAccumulateConstantOffsets(*DL, o, true);
        if (auto *gv = dyn_cast<GlobalValue>(b))
            relocs.push_back(json::Object{{"off", (int64_t)off},
                                          {"g", gv->getName()},
                                          {"goff", o.getSExtValue()}});
    };
    go(C, 0);
    json::Array a;
    for (int b : bytes) a.push_back(b);
    return json::Object{{"bytes", std::move(a)}, {"relocs", std::move(relocs)}};
}

struct Dumper {
    std::map<const Value *, int> ids;
    int next = 0;
    std::set<std::string> *globals;
    int id(const Value *v) {
        auto it = ids.find(v);
        if (it != ids.end()) return it->second;
        return ids[v] = next++;
    }
    static std::string ty(Type *t) {
        std::string s;
        raw_string_ostream o(s);
        t->print(o);
        return o.str();
    }
    json::Value operand(const Value *v) {
        if (auto *ci = dyn_cast<ConstantInt>(v)) {
            SmallString<40> s;
            ci->getValue().toStringUnsigned(s);
            return json::Object{{"c", s.str().str()},
                                {"w", (int)ci->getBitWidth()}};
        }
        if (auto *cf = dyn_cast<ConstantFP>(v)) {
            SmallString<40> s;
            cf->getValueAPF().bitcastToAPInt().toStringUnsigned(s);
            return json::Object{{"f", s.str().str()}};
        }
        if (isa<ConstantPointerNull>(v)) return json::Object{{"null", 1}};
        if (isa<UndefValue>(v)) return json::Object{{"undef", 1}};
        if (auto *f = dyn_cast<Function>(v)) {
            return json::Object{{"fn", f->getName()},
                                {"d", dem(f->getName())}};
        }
        if (auto *c = dyn_cast<Constant>(v)) {
            APInt o(64, 0);
            const Value *b = c->stripAndAccumulateConstantOffsets(*DL, o, true);
            if (auto *gv = dyn_cast<GlobalValue>(b)) {
                if (isa<GlobalVariable>(gv)) globals->insert(gv->getName().str());
                return json::Object{{"g", gv->getName()},
                                    {"off", o.getSExtValue()}};
            }
            if (isa<ConstantAggregateZero>(c))
                return json::Object{{"zero", 1}};
            std::string s;
            raw_string_ostream os(s);
            c->print(os);
            return json::Object{{"const", os.str()}};
        }
        if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Object{{"b", id(bb)}};
        if (isa<MetadataAsValue>(v)) return json::Object{{"md", 1}};
        return json::Object{{"v", id(v)}};
    }
    json::Value loc(const Instruction &I) {
        if (const DILocation *l = I.getDebugLoc().get()) {
            json::Array chain;
            const DILocation *c = l;
            int n = 0;
            while (c && n++ < 12) {
                std::string fn;
                if (auto *sp = c->getScope()->getSubprogram())
                    fn = dem(sp->getLinkageName().empty() ? sp->getName()
                                                          : sp->getLinkageName());
                chain.push_back(json::Object{{"f", c->getFilename()},
                                             {"l", (int64_t)c->getLine()},
                                             {"fn", fn}});
                c = c->getInlinedAt();
            }
            return chain;
        }
        return json::Array{};
    }
    json::Value inst(const Instruction &I) {
        json::Object o;
        o["id"] = id(&I);
        o["op"] = I.getOpcodeName();
        o["ty"] = ty(I.getType());
        if (I.getType()->isIntegerTy())
            o["w"] = (int)I.getType()->getIntegerBitWidth();
        o["loc"] = loc(I);
        json::Array ops;
        if (auto *p = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
                ops.push_back(json::Array{id(p->getIncomingBlock(i)),
                                          operand(p->getIncomingValue(i))});
            o["ops"] = std::move(ops);
            return o;
        }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            o["cond"] = operand(sw->getCondition());
            o["default"] = id(sw->getDefaultDest());
            json::Array cs;
            for (auto &c : sw->cases()) {
                SmallString<40> s;
                c.getCaseValue()->getValue().toStringUnsigned(s);
                cs.push_back(json::Array{s.str().str(), id(c.getCaseSuccessor())});
            }
            o["cases"] = std::move(cs);
            return o;
        }
        if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) o["cond"] = operand(br->getCondition());
            json::Array ss;
            for (unsigned i = 0; i < br->getNumSuccessors(); i++)
                ss.push_back(id(br->getSuccessor(i)));
            o["succ"] = std::move(ss);
            return o;
        }
        if (auto *cb = dyn_cast<CallBase>(&I)) {
            const Value *callee = cb->getCalledOperand()->stripPointerCasts();
            if (auto *f = dyn_cast<Function>(callee)) {
                o["callee"] = f->getName();
                o["cd"] = dem(f->getName());
                if (f->isIntrinsic()) o["intr"] = 1;
            } else
                o["fnptr"] = operand(callee);
            for (auto &a : cb->args()) ops.push_back(operand(a.get()));
            o["ops"] = std::move(ops);
            if (cb->hasStructRetAttr()) o["sret"] = 1;
            json::Array bv;
            for (unsigned i = 0; i < cb->arg_size(); i++)
                if (cb->isByValArgument(i)) bv.push_back((int)i);
            if (!bv.empty()) o["byval"] = std::move(bv);
            if (auto *inv = dyn_cast<InvokeInst>(&I)) {
                o["succ"] = json::Array{id(inv->getNormalDest()),
                                        id(inv->getUnwindDest())};
            }
            return o;
        }
        if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value *, APInt> var;
            APInt off(64, 0);
            if (gep->collectOffset(*DL, 64, var, off)) {
                o["base"] = operand(gep->getPointerOperand());
                o["off"] = off.getSExtValue();
                json::Array vs;
                for (auto &kv : var)
                    vs.push_back(json::Array{operand(kv.first),
                                             kv.second.getSExtValue()});
                o["var"] = std::move(vs);
                return o;
            }
        }
        if (auto *cmp = dyn_cast<CmpInst>(&I))
            o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()).str();
        if (auto *al = dyn_cast<AllocaInst>(&I)) {
            auto sz = al->getAllocationSize(*DL);
            if (sz) o["size"] = (int64_t)sz->getFixedValue();
            o["aty"] = ty(al->getAllocatedType());
        }
        if (auto *ld = dyn_cast<LoadInst>(&I))
            o["size"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue();
        if (auto *st = dyn_cast<StoreInst>(&I))
            o["size"] = (int64_t)DL->getTypeStoreSize(
                                       st->getValueOperand()->getType())
                            .getFixedValue();
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
            json::Array ix;
            for (unsigned i : ev->getIndices()) ix.push_back((int)i);
            o["idx"] = std::move(ix);
        }
        if (auto *ev = dyn_cast<InsertValueInst>(&I)) {
            json::Array ix;
            for (unsigned i : ev->getIndices()) ix.push_back((int)i);
            o["idx"] = std::move(ix);
        }
        for (auto &u : I.operands()) ops.push_back(operand(u.get()));
        o["ops"] = std::move(ops);
        return o;
    }
    json::Value function(Function &F) {
        json::Object o;
        o["name"] = F.getName();
        o["d"] = dem(F.getName());
        if (auto *sp = F.getSubprogram()) {
            o["file"] = sp->getFilename();
            o["line"] = (int64_t)sp->getLine();
        }
        json::Array args;
        for (auto &a : F.args())
            args.push_back(json::Object{{"id", id(&a)},
                                        {"ty", ty(a.getType())},
                                        {"w", a.getType()->isIntegerTy()
                                                  ? (int)a.getType()->getIntegerBitWidth()
                                                  : 0},
                                        {"name", a.getName()},
                                        {"sret", a.hasStructRetAttr()},
                                        {"byval", a.hasByValAttr()}});
        o["args"] = std::move(args);
        o["ret"] = ty(F.getReturnType());
        DominatorTree DT(F);
        LoopInfo LI(DT);
        json::Array bs;
        for (auto &B : F) {
            json::Object b;
            b["id"] = id(&B);
            json::Array is;
            for (auto &I : B)
                if (!isa<DbgInfoIntrinsic>(&I)) is.push_back(inst(I));
            b["ins"] = std::move(is);
            json::Array ss;
            for (auto *s : successors(&B)) ss.push_back(id(s));
            b["succ"] = std::move(ss);
            if (LI.isLoopHeader(&B)) b["header"] = 1;
            b["depth"] = (int)LI.getLoopDepth(&B);
            bs.push_back(std::move(b));
        }
        o["blocks"] = std::move(bs);
        return o;
    }
};

static std::vector<std::string> lines(const std::string &p) {
    std::vector<std::string> r;
    std::ifstream f(p);
    std::string l;
    while (std::getline(f, l))
        if (!l.empty() && l[0] != '#') r.push_back(l);
    return r;
}

// a choice between two pointers becomes a branch, so that paths tell them apart
static void splitSelects(Function &F) {
    std::vector<SelectInst *> sel;
    for (auto &I : instructions(F))
        if (auto *s = dyn_cast<SelectInst>(&I))
            if (s->getType()->isPointerTy() && !s->getCondition()->getType()->isVectorTy()) sel.push_back(s);
    for (auto *s : sel) {
        Instruction *t = nullptr, *f = nullptr;
        SplitBlockAndInsertIfThenElse(s->getCondition(), s, &t, &f);
        auto *phi = PHINode::Create(s->getType(), 2, "", s);
        phi->addIncoming(s->getTrueValue(), t->getParent());
        phi->addIncoming(s->getFalseValue(), f->getParent());
        s->replaceAllUsesWith(phi);
        s->eraseFromParent();
    }
}

// config file: lines "in PATH", "root REGEX", "keep REGEX", "inline REGEX",
// "global REGEX", "passes PIPELINE"
int main(int argc, char **argv) {
    std::vector<std::string> in;
    std::vector<Regex> roots, keep, inl, globs;
    std::string passes =
        "function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,"
        "instcombine<no-verify-fixpoint>,simplifycfg)";
    bool list = false, split = false;
    std::string home;
    for (auto &l : lines(argv[1])) {
        auto sp = l.find(' ');
        std::string k = l.substr(0, sp),
                    v = sp == std::string::npos ? "" : l.substr(sp + 1);
        if (k == "in") in.push_back(v);
        else if (k == "root") roots.emplace_back(v);
        else if (k == "keep") keep.emplace_back(v);
        else if (k == "inline") inl.emplace_back(v);
        else if (k == "global") globs.emplace_back(v);
        else if (k == "passes") passes = v;
        else if (k == "list") list = true;
        else if (k == "split") split = true;
        else if (k == "home") home = v;
        else { errs() << "bad config line " << l << "\n"; return 3; }
    }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> M;
    for (auto &f : in) {
        auto m = parseIRFile(f, err, ctx);
        if (!m) { err.print("irtool", errs()); return 3; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) {
            errs() << "link failed\n";
            return 3;
        }
    }
    DL = &M->getDataLayout();
    auto any = [](std::vector<Regex> &v, const std::string &s) {
        for (auto &r : v)
            if (r.match(s)) return true;
        return false;
    };
    // what to keep is told by a function's name, not by its return or
    // parameter types: a helper that takes a kept type is no kept function
    auto named = [](std::vector<Regex> &v, const std::string &s) {
        size_t from = 0, to = s.size(), i = s.size();
        int d = 0;
        while (i > 0 && s[i - 1] != ')') --i;  // past " const", "[abi:...]"
        if (i) {
            for (size_t j = i; j-- > 0;) {
                if (s[j] == ')') ++d;
                if (s[j] == '(' && --d == 0) { to = j; break; }
            }
        }
        size_t op = s.rfind("operator", to);
        size_t end = op == std::string::npos ? to : op;
        d = 0;
        for (size_t j = end; j-- > 0;) {
            if (s[j] == '>' || s[j] == ')') ++d;
            if (s[j] == '<' || s[j] == '(') --d;
            if (s[j] == ' ' && d == 0) { from = j + 1; break; }
        }
        for (auto &r : v) {
            SmallVector<StringRef, 8> m;
            if (r.match(s, &m)) {
                size_t b = m[0].data() - s.data(), e = b + m[0].size();
                if (b < to && e > from) return true;
            }
            m.clear();
            StringRef t = StringRef(s).substr(from);
            if (r.match(t, &m) && size_t(m[0].data() - t.data()) < to - from) return true;
        }
        return false;
    };
    std::set<std::string> rootn;
    json::Array fnlist;
    for (auto &F : *M) {
        std::string d = dem(F.getName());
        if (F.isDeclaration()) continue;
        if (list) fnlist.push_back(json::Object{{"name", F.getName()}, {"d", d}});
        bool isroot = any(roots, d) || any(roots, F.getName().str());
        bool iskeep = named(keep, d);
        bool isinl = any(inl, d);
        // helpers of the project's own files (static, anonymous-namespace,
        // lambdas, function templates) never hide behaviour
        if (!isinl && !isroot && !home.empty()) {
            auto *sp = F.getSubprogram();
            if (sp && (sp->getDirectory() + "/" + sp->getFilename()).str().find(home) != std::string::npos &&
                (F.hasLocalLinkage() || d.compare(0, 5, "ron::") != 0) &&
                F.getName().find("_GLOBAL__") == StringRef::npos &&
                F.getName().find("__cxx_global") == StringRef::npos &&
                F.getName() != "main")
                isinl = true;
        }
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::AlwaysInline);
        if (isroot) rootn.insert(F.getName().str());
        if (iskeep) F.addFnAttr(Attribute::NoInline);
        else if (isinl) F.addFnAttr(Attribute::AlwaysInline);
        else F.addFnAttr(Attribute::NoInline);
    }
    // lifetime markers only obstruct the analyses
    for (auto &F : *M) {
        std::vector<Instruction *> del;
        for (auto &I : instructions(F))
            if (auto *ii = dyn_cast<IntrinsicInst>(&I))
                if (ii->isLifetimeStartOrEnd() ||
                    ii->getIntrinsicID() ==
                        Intrinsic::experimental_noalias_scope_decl ||
                    ii->getIntrinsicID() == Intrinsic::assume)
                    del.push_back(ii);
        for (auto *i : del) i->eraseFromParent();
    }
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "always-inline," + passes)) {
        errs() << toString(std::move(e)) << "\n";
        return 3;
    }
    MPM.run(*M, MAM);
    json::Array fs;
    std::set<std::string> globals;
    for (auto &n : rootn) {
        Function *F = M->getFunction(n);
        if (!F || F->isDeclaration()) continue;
        if (split) splitSelects(*F);
        Dumper d;
        d.globals = &globals;
        fs.push_back(d.function(*F));
    }
    json::Object gs;
    for (auto &G : M->globals()) {
        std::string d = dem(G.getName());
        if (!globals.count(G.getName().str()) && !any(globs, d)) continue;
        uint64_t size = DL->getTypeAllocSize(G.getValueType());
        json::Object o;
        o["d"] = d;
        o["size"] = (int64_t)size;
        o["const"] = G.isConstant();
        if (G.hasInitializer() && size < 100000) {
            o["init"] = constBytes(G.getInitializer(), size);
        }
        gs[G.getName()] = std::move(o);
    }
    json::Object out{{"functions", std::move(fs)}, {"globals", std::move(gs)}};
    if (list) out["list"] = std::move(fnlist);
    outs() << json::Value(std::move(out)) << "\n";
    return 0;
}
