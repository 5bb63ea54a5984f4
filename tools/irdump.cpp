// irdump: reads LLVM bitcode of a witness unit (clang -O1 -disable-llvm-passes, value names kept,
// debug info on), promotes scalar locals to SSA, and writes one JSON line per analysed function.
// It executes nothing of the analysed program.
#include <llvm/ADT/StringExtras.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>

#include <map>
#include <set>
#include <string>

using namespace llvm;

static std::string dem(StringRef n) {
    std::string s = llvm::demangle(n.str());
    return s;
}

static bool is_std_name(StringRef m) {
    if (!m.consume_front("_Z")) return false;
    if (m.consume_front("Th") || m.consume_front("Tv")) return false;
    while (!m.empty()) {
        if (m.starts_with("NKSt") || m.starts_with("NSt") || m.starts_with("St") ||
            m.starts_with("NSa") || m.starts_with("NSs") || m.starts_with("NKSa") ||
            m.starts_with("NKRSt") || m.starts_with("NRSt") || m.starts_with("NOSt") ||
            m.starts_with("NKOSt") || m.starts_with("N9__gnu_cxx") ||
            m.starts_with("NK9__gnu_cxx") || m.starts_with("N10__cxxabiv1") ||
            m.starts_with("NVSt") || m.starts_with("NVKSt") || m.starts_with("nw") ||
            m.starts_with("dl"))
            return true;
        if (m[0] == 'Z' || m[0] == 'L') {
            m = m.drop_front();
            continue;
        }
        return false;
    }
    return false;
}

static bool std_wanted(StringRef m) {
    static const char* pre[] = {"_ZSt6invokeI",      "_ZSt8__invokeI",    "_ZSt10__invoke_r",
                                "_ZSt13__invoke_impl", "_ZSt5applyI",     "_ZSt12__apply_impl",
                                "_ZNSt18condition_variable4waitI",
                                "_ZNSt18condition_variable8wait_forI",
                                "_ZNSt18condition_variable10wait_untilI",
                                "_ZSt8for_eachI",    "_ZSt5visitI"};
    for (auto p : pre)
        if (m.starts_with(p)) return true;
    if ((m.starts_with("_ZSt") || m.starts_with("_ZN9__gnu_cxx5__ops") ||
         m.starts_with("_ZNK9__gnu_cxx5__ops")) &&
        m.contains("Ul"))
        return true;
    if ((m.starts_with("_ZSt4swapI") || m.starts_with("_ZSt8exchangeI")) && m.contains("5task_I"))
        return true;
    return false;
}

struct Dumper {
    Module& M;
    const DataLayout& DL;
    raw_ostream& OS;
    std::map<std::string, int> files;
    std::vector<std::string> file_names;
    bool full = false; // with the bodies of standard functions and the offsets of fields

    Dumper(Module& m, raw_ostream& os) : M(m), DL(m.getDataLayout()), OS(os) {}

    int file_id(const DIScope* s) {
        std::string f = s ? s->getFilename().str() : std::string("?");
        auto it = files.find(f);
        if (it != files.end()) return it->second;
        int n = (int)file_names.size();
        files[f] = n;
        file_names.push_back(f);
        return n;
    }

    static std::string type_name(Type* t) {
        if (auto* s = dyn_cast<StructType>(t)) {
            if (s->hasName()) return s->getName().str();
            return "{}";
        }
        std::string r;
        raw_string_ostream o(r);
        t->print(o);
        return r;
    }

    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bbs;

    json::Value val(const Value* v) {
        auto it = ids.find(v);
        if (it != ids.end()) return it->second;
        if (auto* c = dyn_cast<ConstantInt>(v)) {
            if (c->getBitWidth() == 1) return json::Array{"c", (int64_t)c->getZExtValue()};
            if (c->getBitWidth() <= 64) return json::Array{"c", c->getSExtValue()};
            return json::Array{"k", "bigint"};
        }
        if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
        if (isa<UndefValue>(v)) return json::Array{"u"};
        if (auto* f = dyn_cast<ConstantFP>(v)) {
            SmallString<16> s;
            f->getValueAPF().toString(s);
            return json::Array{"k", std::string(s)};
        }
        if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
        if (auto* g = dyn_cast<GlobalAlias>(v)) return val(g->getAliasee());
        if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
        if (auto* gep = dyn_cast<GEPOperator>(v)) {
            APInt off(64, 0);
            const Value* b = gep->stripAndAccumulateConstantOffsets(DL, off, true);
            if (auto* g = dyn_cast<GlobalValue>(b))
                return json::Array{"ge", g->getName().str(), off.getSExtValue()};
        }
        if (auto* ce = dyn_cast<ConstantExpr>(v)) {
            if (ce->isCast()) return val(ce->getOperand(0));
        }
        std::string s;
        raw_string_ostream o(s);
        v->printAsOperand(o, false);
        return json::Array{"k", s};
    }

    json::Value loc(const Instruction& I) {
        if (auto d = I.getDebugLoc()) {
            auto* sc = cast<DIScope>(d.getScope());
            return json::Array{file_id(sc), (int64_t)d.getLine()};
        }
        return nullptr;
    }

    static StringRef callee_name(const CallBase& cb) {
        const Value* c = cb.getCalledOperand()->stripPointerCasts();
        if (auto* a = dyn_cast<GlobalAlias>(c)) c = a->getAliaseeObject();
        if (auto* f = dyn_cast<Function>(c)) return f->getName();
        return "";
    }

    bool inst(const Instruction& I, json::Array& out) {
        json::Object o;
        if (!I.getType()->isVoidTy()) o["i"] = ids[&I];
        if (auto L = loc(I); L.kind() != json::Value::Null) o["l"] = std::move(L);
        if (auto* a = dyn_cast<AllocaInst>(&I)) {
            o["o"] = "alloca";
            o["t"] = type_name(a->getAllocatedType());
            o["n"] = a->getName().str();
        } else if (auto* a = dyn_cast<LoadInst>(&I)) {
            o["o"] = "load";
            o["p"] = val(a->getPointerOperand());
            o["t"] = type_name(a->getType());
            if (a->isAtomic()) o["at"] = true;
            if (a->isVolatile()) o["vol"] = true;
        } else if (auto* a = dyn_cast<StoreInst>(&I)) {
            o["o"] = "store";
            o["p"] = val(a->getPointerOperand());
            o["v"] = val(a->getValueOperand());
        } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            o["o"] = "gep";
            o["b"] = val(g->getPointerOperand());
            o["s"] = type_name(g->getSourceElementType());
            o["n"] = g->getName().str();
            json::Array x;
            for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
                if (auto* c = dyn_cast<ConstantInt>(*it))
                    x.push_back(c->getSExtValue());
                else
                    x.push_back(json::Array{val(*it)});
            }
            o["x"] = std::move(x);
            if (full) {
                MapVector<Value*, APInt> vars;
                APInt c(64, 0);
                json::Array off;
                if (cast<GEPOperator>(g)->collectOffset(M.getDataLayout(), 64, vars, c)) {
                    off.push_back(c.getSExtValue());
                    for (auto& [v, k] : vars) off.push_back(json::Array{val(v), k.getSExtValue()});
                }
                o["off"] = std::move(off);
            }
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            StringRef cn = callee_name(*cb);
            if (cn.starts_with("llvm.dbg") || cn == "llvm.lifetime.start.p0" ||
                cn == "llvm.assume" || cn.starts_with("llvm.experimental.noalias"))
                return false;
            if (cn == "llvm.lifetime.end.p0") {
                o["o"] = "lend";
                o["p"] = val(cb->getArgOperand(1));
            } else if (cn == "llvm.type.test" || cn == "llvm.public.type.test") {
                o["o"] = "tt";
                o["p"] = val(cb->getArgOperand(0));
                auto* md = cast<MetadataAsValue>(cb->getArgOperand(1))->getMetadata();
                o["t"] = isa<MDString>(md) ? dem_type(cast<MDString>(md)->getString()) : "?";
            } else if (cn.starts_with("llvm.memcpy") || cn.starts_with("llvm.memmove")) {
                o["o"] = "memcpy";
                o["d"] = val(cb->getArgOperand(0));
                o["s"] = val(cb->getArgOperand(1));
                if (full) o["n"] = val(cb->getArgOperand(2));
            } else if (cn.starts_with("llvm.memset")) {
                o["o"] = "memset";
                o["d"] = val(cb->getArgOperand(0));
                o["v"] = val(cb->getArgOperand(1));
                if (full) o["n"] = val(cb->getArgOperand(2));
            } else {
                o["o"] = "call";
                if (!cn.empty())
                    o["f"] = cn.str();
                else
                    o["fv"] = val(cb->getCalledOperand());
                json::Array as;
                for (auto& u : cb->args()) {
                    if (isa<MetadataAsValue>(u.get()))
                        as.push_back(json::Array{"k", "metadata"});
                    else
                        as.push_back(val(u.get()));
                }
                o["a"] = std::move(as);
                int sret = -1;
                for (unsigned i = 0; i < cb->arg_size(); ++i)
                    if (cb->paramHasAttr(i, Attribute::StructRet)) sret = (int)i;
                if (sret >= 0) o["sret"] = sret;
                if (cb->doesNotThrow()) o["nu"] = true;
                if (cb->doesNotReturn()) o["nr"] = true;
                if (auto* iv = dyn_cast<InvokeInst>(cb)) {
                    o["to"] = bbs[iv->getNormalDest()];
                    o["un"] = bbs[iv->getUnwindDest()];
                }
            }
        } else if (auto* b = dyn_cast<BranchInst>(&I)) {
            o["o"] = "br";
            json::Array t;
            for (unsigned i = 0; i < b->getNumSuccessors(); ++i) t.push_back(bbs[b->getSuccessor(i)]);
            o["t"] = std::move(t);
            if (b->isConditional()) o["c"] = val(b->getCondition());
        } else if (auto* s = dyn_cast<SwitchInst>(&I)) {
            o["o"] = "switch";
            o["c"] = val(s->getCondition());
            o["d"] = bbs[s->getDefaultDest()];
            json::Array cs;
            for (auto& c : s->cases())
                cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bbs[c.getCaseSuccessor()]});
            o["cs"] = std::move(cs);
        } else if (auto* r = dyn_cast<ReturnInst>(&I)) {
            o["o"] = "ret";
            if (r->getReturnValue()) o["v"] = val(r->getReturnValue());
        } else if (isa<ResumeInst>(&I)) {
            o["o"] = "resume";
        } else if (isa<UnreachableInst>(&I)) {
            o["o"] = "unreachable";
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
            o["o"] = "phi";
            json::Array vs;
            for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                vs.push_back(json::Array{val(p->getIncomingValue(i)), bbs[p->getIncomingBlock(i)]});
            o["v"] = std::move(vs);
        } else if (auto* c = dyn_cast<CmpInst>(&I)) {
            o["o"] = "cmp";
            o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
            o["a"] = val(c->getOperand(0));
            o["b"] = val(c->getOperand(1));
        } else if (auto* b = dyn_cast<BinaryOperator>(&I)) {
            o["o"] = "bin";
            o["op"] = b->getOpcodeName();
            o["a"] = val(b->getOperand(0));
            o["b"] = val(b->getOperand(1));
        } else if (auto* s = dyn_cast<SelectInst>(&I)) {
            o["o"] = "sel";
            o["c"] = val(s->getCondition());
            o["a"] = val(s->getTrueValue());
            o["b"] = val(s->getFalseValue());
        } else if (auto* c = dyn_cast<CastInst>(&I)) {
            o["o"] = "cast";
            o["op"] = c->getOpcodeName();
            o["v"] = val(c->getOperand(0));
            o["t"] = type_name(c->getType());
        } else if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
            o["o"] = "ev";
            o["v"] = val(e->getAggregateOperand());
            o["x"] = (int64_t)e->getIndices()[0];
        } else if (auto* e = dyn_cast<InsertValueInst>(&I)) {
            o["o"] = "iv";
            o["b"] = val(e->getAggregateOperand());
            o["v"] = val(e->getInsertedValueOperand());
            o["x"] = (int64_t)e->getIndices()[0];
        } else if (auto* l = dyn_cast<LandingPadInst>(&I)) {
            o["o"] = "lpad";
            json::Array cs;
            for (unsigned i = 0; i < l->getNumClauses(); ++i) {
                if (!l->isCatch(i)) {
                    cs.push_back("filter");
                    continue;
                }
                auto* c = l->getClause(i)->stripPointerCasts();
                if (isa<ConstantPointerNull>(c))
                    cs.push_back("...");
                else
                    cs.push_back(dem_type(c->getName()));
            }
            o["c"] = std::move(cs);
            o["cl"] = l->isCleanup();
        } else if (auto* r = dyn_cast<AtomicRMWInst>(&I)) {
            o["o"] = "rmw";
            o["op"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
            o["p"] = val(r->getPointerOperand());
            o["v"] = val(r->getValOperand());
        } else if (auto* r = dyn_cast<AtomicCmpXchgInst>(&I)) {
            o["o"] = "cx";
            o["p"] = val(r->getPointerOperand());
            o["e"] = val(r->getCompareOperand());
            o["v"] = val(r->getNewValOperand());
        } else if (isa<FreezeInst>(&I)) {
            o["o"] = "cast";
            o["op"] = "freeze";
            o["v"] = val(I.getOperand(0));
        } else {
            o["o"] = "other";
            o["op"] = I.getOpcodeName();
            json::Array as;
            for (auto& u : I.operands())
                if (!isa<BasicBlock>(u.get())) as.push_back(val(u.get()));
            o["a"] = std::move(as);
        }
        out.push_back(std::move(o));
        return true;
    }

    static std::string dem_type(StringRef ti) {
        // _ZTS / _ZTI names
        std::string d = llvm::demangle(ti.str());
        for (const char* p : {"typeinfo name for ", "typeinfo for "})
            if (StringRef(d).starts_with(p)) return d.substr(strlen(p));
        return d;
    }

    bool wanted(const Function& F) {
        if (F.isDeclaration()) return false;
        StringRef n = F.getName();
        if (n.starts_with("_GLOBAL__") || n.starts_with("__cxx_global") || n.starts_with("__clang_"))
            return n.starts_with("__cxx_global") || n.starts_with("_GLOBAL__");
        if (!full && is_std_name(n)) return std_wanted(n);
        return true;
    }

    void promote(Function& F) {
        std::vector<AllocaInst*> v;
        do {
            v.clear();
            for (auto& I : F.getEntryBlock())
                if (auto* a = dyn_cast<AllocaInst>(&I))
                    if (isAllocaPromotable(a)) v.push_back(a);
            if (v.empty()) break;
            DominatorTree DT(F);
            PromoteMemToReg(v, DT);
        } while (true);
    }

    void header() {
        json::Object h;
        // record layouts from debug info
        DebugInfoFinder dif;
        dif.processModule(M);
        json::Array types;
        for (auto* t : dif.types()) {
            auto* c = dyn_cast<DICompositeType>(t);
            if (!c || (c->getTag() != dwarf::DW_TAG_structure_type &&
                       c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type))
                continue;
            if (c->isForwardDecl()) continue;
            std::string scope;
            for (auto* s = c->getScope(); s;) {
                StringRef n;
                DIScope* next = nullptr;
                if (auto* ns = dyn_cast<DINamespace>(s)) {
                    if (!ns->getExportSymbols()) n = ns->getName();
                    next = ns->getScope();
                } else if (auto* ct = dyn_cast<DICompositeType>(s)) {
                    n = ct->getName();
                    next = ct->getScope();
                } else if (auto* sp = dyn_cast<DISubprogram>(s)) {
                    n = sp->getName();
                    next = sp->getScope();
                } else {
                    next = s->getScope();
                }
                if (!n.empty()) scope = n.str() + "::" + scope;
                s = next;
            }
            StringRef sc(scope);
            if (sc.starts_with("std::") || sc.starts_with("__gnu_cxx")) continue;
            json::Object o;
            o["n"] = scope + c->getName().str();
            if (!c->getIdentifier().empty()) o["id"] = c->getIdentifier().str();
            o["file"] = c->getFilename().str();
            o["line"] = (int64_t)c->getLine();
            json::Array fs, bs;
            for (auto* e : c->getElements()) {
                auto* d = dyn_cast_or_null<DIDerivedType>(e);
                if (!d) continue;
                auto tn = [&](DIType* b) -> std::string { return di_type(b, 0); };
                if (d->getTag() == dwarf::DW_TAG_member) {
                    fs.push_back(json::Array{d->getName().str(), tn(d->getBaseType()),
                                             (int64_t)(d->isStaticMember() ? -1 : d->getOffsetInBits()),
                                             (int64_t)d->getLine(), (int64_t)d->getAlignInBits()});
                } else if (d->getTag() == dwarf::DW_TAG_inheritance) {
                    bs.push_back(tn(d->getBaseType()));
                }
            }
            o["z"] = (int64_t)c->getSizeInBits();
            o["f"] = std::move(fs);
            o["b"] = std::move(bs);
            types.push_back(std::move(o));
        }
        h["types"] = std::move(types);
        json::Array vts;
        for (auto& g : M.globals()) {
            if (!g.getName().starts_with("_ZTV") || !g.hasInitializer()) continue;
            json::Object o;
            o["n"] = g.getName().str();
            json::Array slots;
            if (auto* st = dyn_cast<ConstantStruct>(g.getInitializer())) {
                for (auto& op : st->operands())
                    if (auto* ar = dyn_cast<ConstantArray>(op.get()))
                        for (auto& e : ar->operands()) {
                            auto* f = dyn_cast<Function>(e->stripPointerCasts());
                            slots.push_back(f ? f->getName().str() : std::string());
                        }
            }
            o["s"] = std::move(slots);
            SmallVector<MDNode*, 4> mds;
            g.getMetadata(LLVMContext::MD_type, mds);
            json::Array ts;
            for (auto* md : mds) {
                int64_t off =
                    cast<ConstantInt>(cast<ConstantAsMetadata>(md->getOperand(0))->getValue())
                        ->getSExtValue();
                auto* s = dyn_cast<MDString>(md->getOperand(1));
                if (s) ts.push_back(json::Array{off, dem_type(s->getString())});
            }
            o["t"] = std::move(ts);
            vts.push_back(std::move(o));
        }
        h["vtables"] = std::move(vts);
        // constant tables of functions (a hand-made vtable, or a single constant function pointer)
        json::Object tabs;
        for (auto& g : M.globals()) {
            if (!g.isConstant() || !g.hasInitializer() || g.getName().starts_with("_ZTV") ||
                g.getName().starts_with("_ZTI"))
                continue;
            json::Array slots;
            bool any = false;
            auto add = [&](Value* e) {
                auto* f = dyn_cast<Function>(e->stripPointerCasts());
                any |= f != nullptr;
                slots.push_back(f ? f->getName().str() : std::string());
            };
            if (auto* st = dyn_cast<ConstantStruct>(g.getInitializer())) {
                for (auto& op : st->operands()) add(op.get());
            } else {
                add(g.getInitializer());
            }
            if (any) tabs[g.getName().str()] = std::move(slots);
        }
        h["tables"] = std::move(tabs);
        h["module"] = M.getSourceFileName();
        OS << "H\t" << json::Value(std::move(h)) << "\n";
    }

    std::string di_type(DIType* t, int depth) {
        if (!t || depth > 6) return "void";
        if (auto* d = dyn_cast<DIDerivedType>(t)) {
            switch (d->getTag()) {
                case dwarf::DW_TAG_typedef: {
                    std::string u = di_type(d->getBaseType(), depth + 1);
                    return u;
                }
                case dwarf::DW_TAG_pointer_type: return di_type(d->getBaseType(), depth + 1) + "*";
                case dwarf::DW_TAG_reference_type: return di_type(d->getBaseType(), depth + 1) + "&";
                case dwarf::DW_TAG_rvalue_reference_type:
                    return di_type(d->getBaseType(), depth + 1) + "&&";
                case dwarf::DW_TAG_const_type: return "const " + di_type(d->getBaseType(), depth + 1);
                default: return di_type(d->getBaseType(), depth + 1);
            }
        }
        std::string scope;
        for (auto* s = t->getScope(); s; s = s->getScope()) {
            if (auto* ns = dyn_cast<DINamespace>(s)) {
                if (!ns->getExportSymbols()) scope = ns->getName().str() + "::" + scope;
            } else if (auto* ct = dyn_cast<DICompositeType>(s))
                scope = ct->getName().str() + "::" + scope;
        }
        return scope + t->getName().str();
    }

    void run() {
        header();
        std::set<const Function*> dumped;
        for (auto& F : M)
            if (wanted(F)) dumped.insert(&F);
        for (auto& F : M) {
            if (F.isIntrinsic()) continue;
            bool d = dumped.count(&F);
            json::Object o;
            o["m"] = F.getName().str();
            o["d"] = dem(F.getName());
            bool at = false;
            json::Array callers;
            std::set<std::string> seen;
            std::vector<const Value*> work{&F};
            while (!work.empty()) {
                const Value* v = work.back();
                work.pop_back();
                for (auto* u : v->users()) {
                    if (auto* cb = dyn_cast<CallBase>(u);
                        cb && cb->getCalledOperand() == v) {
                        auto* G = cb->getFunction();
                        bool isarg = false;
                        for (auto& a : cb->args())
                            if (a.get() == v) isarg = true;
                        if (isarg) at = true;
                        if (seen.insert(G->getName().str()).second)
                            callers.push_back(
                                json::Array{G->getName().str(), dumped.count(G) ? 1 : 0});
                    } else if (isa<GlobalAlias>(u)) {
                        work.push_back(u);
                    } else
                        at = true;
                }
            }
            o["callers"] = std::move(callers);
            if (at) o["at"] = true;
            if (F.doesNotThrow()) o["nu"] = true;
            if (F.doesNotReturn()) o["nr"] = true;
            if (auto* sp = F.getSubprogram()) {
                o["file"] = file_id(sp);
                o["line"] = (int64_t)sp->getLine();
                if (auto* ct = dyn_cast_or_null<DICompositeType>(sp->getScope())) {
                    o["cls"] = ct->getIdentifier().empty() ? ct->getName().str() : ct->getIdentifier().str();
                }
                const DISubprogram* decl = sp->getDeclaration() ? sp->getDeclaration() : sp;
                if (decl->isPrivate()) o["acc"] = "private";
                if (decl->isProtected()) o["acc"] = "protected";
                if (decl->isArtificial() || sp->isArtificial()) o["art"] = true;
            }
            if (d) {
                promote(F);
                ids.clear();
                bbs.clear();
                int n = 0;
                json::Array args;
                for (auto& a : F.args()) {
                    ids[&a] = n++;
                    args.push_back(json::Array{a.getName().str(), a.hasStructRetAttr() ? 1 : 0});
                }
                int b = 0;
                for (auto& B : F) {
                    bbs[&B] = b++;
                    for (auto& I : B)
                        if (!I.getType()->isVoidTy()) ids[&I] = n++;
                }
                o["args"] = std::move(args);
                json::Array blocks;
                for (auto& B : F) {
                    json::Array is;
                    for (auto& I : B) inst(I, is);
                    blocks.push_back(std::move(is));
                }
                o["b"] = std::move(blocks);
            }
            OS << (d ? "F\t" : "D\t") << F.getName() << "\t" << json::Value(std::move(o)) << "\n";
        }
        json::Array fs;
        for (auto& f : file_names) fs.push_back(f);
        OS << "X\t" << json::Value(std::move(fs)) << "\n";
    }
};

int main(int argc, char** argv) {
    if (argc != 3 && !(argc == 4 && StringRef(argv[3]) == "full")) {
        errs() << "usage: irdump in.bc out [full]\n";
        return 2;
    }
    LLVMContext C;
    SMDiagnostic E;
    auto M = parseIRFile(argv[1], E, C);
    if (!M) {
        E.print("irdump", errs());
        return 2;
    }
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) {
        errs() << ec.message() << "\n";
        return 2;
    }
    Dumper d(*M, os);
    d.full = argc == 4;
    d.run();
    return 0;
}
