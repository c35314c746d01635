// irdump: reads an LLVM bitcode module (already put through mem2reg) and
// writes a compact JSON description of it: functions, blocks, instructions,
// globals, class layouts (from debug info), vtables and type-info objects.
// The analyses are written in Python against this dump.
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace llvm;

static const DataLayout *DL;
static raw_ostream *OS;

static std::string esc(StringRef s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) {
            char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;
        } else r += (char)c;
    }
    return r + "\"";
}

static uint64_t tySize(Type *t) {
    if (!t->isSized()) return 0;
    return DL->getTypeAllocSize(t).getFixedValue();
}

// i<N> -> N, ptr -> "p", void -> "v", float/double -> "f", other -> size in bytes as "a<size>"
static std::string ty(Type *t) {
    if (t->isIntegerTy()) return std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "\"p\"";
    if (t->isVoidTy()) return "\"v\"";
    if (t->isFloatingPointTy()) return "\"f\"";
    return "\"a" + std::to_string(tySize(t)) + "\"";
}

struct FnCtx { std::map<const Value*, int> ids; };

static std::string intval(const APInt &a) {
    SmallString<40> s; a.toStringUnsigned(s, 10); return s.str().str();
}

static std::string constant(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) return "[\"c\"," + intval(ci->getValue()) + "]";
    if (isa<ConstantPointerNull>(c)) return "[\"c\",0]";
    if (isa<UndefValue>(c)) return "[\"u\"]";
    if (auto *al = dyn_cast<GlobalAlias>(c)) return constant(al->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) return "[\"g\"," + esc(g->getName()) + ",0]";
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        APInt off(DL->getIndexSizeInBits(0), 0);
        if (ce->getType()->isPointerTy()) {
            const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            if (auto *al = dyn_cast<GlobalAlias>(b)) b = al->getAliasee();
            if (auto *g = dyn_cast<GlobalValue>(b))
                return "[\"g\"," + esc(g->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
        }
        if (ce->getOpcode() == Instruction::PtrToInt) return constant(cast<Constant>(ce->getOperand(0)));
        if (ce->getOpcode() == Instruction::IntToPtr) return constant(cast<Constant>(ce->getOperand(0)));
    }
    if (isa<ConstantAggregateZero>(c)) return "[\"z\"]";
    if (isa<ConstantFP>(c)) return "[\"fp\"]";
    return "[\"u\"]";
}

static std::string operand(FnCtx &F, const Value *v) {
    auto it = F.ids.find(v);
    if (it != F.ids.end()) return std::to_string(it->second);
    if (auto *c = dyn_cast<Constant>(v)) return constant(c);
    if (isa<MetadataAsValue>(v)) return "[\"md\"]";
    return "[\"u\"]";
}

static void flatten(const Constant *c, uint64_t off, std::vector<std::string> &out, int &budget) {
    if (budget-- <= 0) return;
    if (isa<ConstantAggregateZero>(c)) {
        out.push_back("[" + std::to_string(off) + "," + std::to_string(tySize(c->getType())) + ",[\"z\"]]");
        return;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i)
            flatten(cs->getOperand(i), off + sl->getElementOffset(i), out, budget);
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = tySize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            flatten(ca->getOperand(i), off + i * es, out, budget);
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = tySize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements() && budget-- > 0; ++i)
            if (cd->getElementType()->isIntegerTy())
                out.push_back("[" + std::to_string(off + i * es) + "," + std::to_string(es) +
                    ",[\"c\"," + std::to_string(cd->getElementAsInteger(i)) + "]]");
        return;
    }
    out.push_back("[" + std::to_string(off) + "," + std::to_string(tySize(c->getType())) + "," + constant(c) + "]");
}

static std::string diFile(const DIScope *s) {
    if (!s || !s->getFile()) return "";
    auto f = s->getFile();
    std::string n = f->getFilename().str();
    if (!n.empty() && n[0] != '/') n = f->getDirectory().str() + "/" + n;
    return n;
}

static std::string diTypeName(const DIType *t, int depth = 0) {
    if (!t || depth > 8) return "void";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        std::string b;
        switch (d->getTag()) {
            case dwarf::DW_TAG_typedef: return d->getName().str();
            case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType(), depth + 1);
            case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(d->getBaseType(), depth + 1);
            case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType(), depth + 1) + " *";
            case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType(), depth + 1) + " &";
            case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType(), depth + 1) + " &&";
            default: return diTypeName(d->getBaseType(), depth + 1);
        }
    }
    std::string n = t->getName().str();
    if (auto *ct = dyn_cast<DICompositeType>(t)) {
        if (ct->getTag() == dwarf::DW_TAG_array_type)
            return diTypeName(ct->getBaseType(), depth + 1) + "[]";
        const DIScope *sc = t->getScope();
        while (sc && (isa<DICompositeType>(sc) || isa<DINamespace>(sc))) {
            if (!sc->getName().empty()) n = sc->getName().str() + "::" + n;
            sc = sc->getScope();
        }
    }
    return n;
}

static const DIType *stripTD(const DIType *t) {
    while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
        auto tag = d->getTag();
        if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type)
            t = d->getBaseType();
        else break;
    }
    return t;
}

int main(int argc, char **argv) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    std::error_code ec;
    raw_fd_ostream out(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    OS = &out;
    DL = &M->getDataLayout();
    out << "{\"funcs\":{";
    bool firstF = true;
    for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        FnCtx C;
        int n = 0;
        for (auto &A : F.args()) C.ids[&A] = n++;
        std::map<const BasicBlock*, int> bbid;
        int bn = 0;
        for (auto &B : F) { bbid[&B] = bn++; for (auto &I : B) C.ids[&I] = n++; }
        if (!firstF) out << ",\n"; firstF = false;
        auto *SP = F.getSubprogram();
        out << esc(F.getName()) << ":{\"dem\":" << esc(demangle(F.getName()));
        if (SP) {
            out << ",\"file\":" << esc(diFile(SP)) << ",\"line\":" << SP->getLine();
            if (auto *d = SP->getDeclaration()) if (auto *cls = dyn_cast_or_null<DICompositeType>(d->getScope()))
                out << ",\"cls\":" << esc(diTypeName(cls));
            out << ",\"dty\":[";
            bool f = true;
            if (SP->getType()) for (auto *t : SP->getType()->getTypeArray()) {
                if (!f) out << ","; f = false; out << esc(diTypeName(t));
            }
            out << "]";
            // Argument names.
            std::map<unsigned, std::string> an;
            for (auto *node : SP->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(node)) if (lv->getArg()) an[lv->getArg()] = lv->getName().str();
            for (auto &B : F) for (auto &I : B) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
                auto *lv = dv->getVariable();
                if (lv->getArg() && dv->getDebugLoc() && dv->getDebugLoc()->getScope()->getSubprogram() == SP) an[lv->getArg()] = lv->getName().str();
            }
            out << ",\"pn\":{";
            f = true;
            for (auto &p : an) { if (!f) out << ","; f = false; out << "\"" << p.first << "\":" << esc(p.second); }
            out << "}";
        }
        out << ",\"ret\":" << ty(F.getReturnType()) << ",\"nargs\":" << F.arg_size();
        out << ",\"sret\":" << (F.hasStructRetAttr() ? 1 : 0);
        out << ",\"link\":" << (F.hasLocalLinkage() ? "\"internal\"" : F.hasLinkOnceLinkage() ? "\"odr\"" : "\"ext\"");
        out << ",\"dllexport\":" << (F.hasDLLExportStorageClass() ? 1 : 0);
        out << ",\"nounwind\":" << (F.doesNotThrow() ? 1 : 0) << ",\"noreturn\":" << (F.doesNotReturn() ? 1 : 0);
        out << ",\"argt\":[";
        { bool f = true; for (auto &A : F.args()) { if (!f) out << ","; f = false; out << ty(A.getType()); } }
        out << "],\"argn\":[";
        { bool f = true; for (auto &A : F.args()) { if (!f) out << ","; f = false; out << esc(A.getName()); } }
        out << "],\"blocks\":[";
        bool firstB = true;
        for (auto &B : F) {
            if (!firstB) out << ","; firstB = false;
            out << "[";
            bool firstI = true;
            for (auto &I : B) {
                if (isa<DbgInfoIntrinsic>(&I)) {
                    // Source variable names, for reports only.
                    continue;
                }
                if (!firstI) out << ","; firstI = false;
                int line = I.getDebugLoc() ? (int)I.getDebugLoc().getLine() : 0;
                out << "[" << C.ids[&I] << ",\"" << I.getOpcodeName() << "\"," << ty(I.getType()) << "," << line;
                if (auto *a = dyn_cast<AllocaInst>(&I)) {
                    out << "," << tySize(a->getAllocatedType()) << "," << esc(I.getName());
                } else if (auto *l = dyn_cast<LoadInst>(&I)) {
                    out << "," << operand(C, l->getPointerOperand()) << "," << tySize(l->getType());
                } else if (auto *s = dyn_cast<StoreInst>(&I)) {
                    out << "," << operand(C, s->getValueOperand()) << "," << operand(C, s->getPointerOperand()) << "," << tySize(s->getValueOperand()->getType()) << "," << ty(s->getValueOperand()->getType());
                } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                    MapVector<Value*, APInt> vo;
                    unsigned bw = DL->getIndexSizeInBits(0);
                    APInt co(bw, 0);
                    out << "," << operand(C, g->getPointerOperand());
                    if (cast<GEPOperator>(g)->collectOffset(*DL, bw, vo, co)) {
                        out << "," << co.getSExtValue() << ",[";
                        bool f = true;
                        for (auto &p : vo) { if (!f) out << ","; f = false; out << "[" << operand(C, p.first) << "," << p.second.getSExtValue() << "]"; }
                        out << "]";
                    } else out << ",0,[[[\"u\"],1]]";
                } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                    const Value *callee = cb->getCalledOperand()->stripPointerCasts();
                    out << "," << operand(C, callee) << ",[";
                    for (unsigned i = 0; i < cb->arg_size(); ++i) {
                        if (i) out << ",";
                        out << operand(C, cb->getArgOperand(i));
                    }
                    out << "],";
                    if (auto *iv = dyn_cast<InvokeInst>(cb)) out << "[" << bbid[iv->getNormalDest()] << "," << bbid[iv->getUnwindDest()] << "]";
                    else out << "null";
                    out << "," << ((cb->doesNotThrow() ? 1 : 0) | (cb->doesNotReturn() ? 2 : 0));
                    // type.test metadata
                    if (auto *fn = dyn_cast<Function>(callee)) if (fn->getIntrinsicID() == Intrinsic::type_test) {
                        auto *md = cast<MetadataAsValue>(cb->getArgOperand(1))->getMetadata();
                        if (auto *ms = dyn_cast<MDString>(md)) out << "," << esc(ms->getString());
                    }
                } else if (auto *b = dyn_cast<BranchInst>(&I)) {
                    if (b->isConditional()) out << "," << operand(C, b->getCondition()) << "," << bbid[b->getSuccessor(0)] << "," << bbid[b->getSuccessor(1)];
                    else out << ",null," << bbid[b->getSuccessor(0)];
                } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                    out << "," << operand(C, sw->getCondition()) << "," << bbid[sw->getDefaultDest()] << ",[";
                    bool f = true;
                    for (auto &c : sw->cases()) { if (!f) out << ","; f = false; out << "[" << intval(c.getCaseValue()->getValue()) << "," << bbid[c.getCaseSuccessor()] << "]"; }
                    out << "]";
                } else if (auto *p = dyn_cast<PHINode>(&I)) {
                    out << ",[";
                    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) { if (i) out << ","; out << "[" << operand(C, p->getIncomingValue(i)) << "," << bbid[p->getIncomingBlock(i)] << "]"; }
                    out << "]";
                } else if (auto *ic = dyn_cast<CmpInst>(&I)) {
                    out << ",\"" << CmpInst::getPredicateName(ic->getPredicate()).str() << "\"," << operand(C, ic->getOperand(0)) << "," << operand(C, ic->getOperand(1)) << "," << ty(ic->getOperand(0)->getType());
                } else if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
                    out << "," << (lp->isCleanup() ? 1 : 0) << ",[";
                    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                        if (i) out << ",";
                        if (lp->isCatch(i)) out << constant(lp->getClause(i));
                        else out << "[\"filter\"]";
                    }
                    out << "]";
                } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                    out << "," << operand(C, ev->getAggregateOperand()) << ",[";
                    bool f = true; for (auto i : ev->indices()) { if (!f) out << ","; f = false; out << i; } out << "]";
                } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                    out << "," << operand(C, iv->getAggregateOperand()) << "," << operand(C, iv->getInsertedValueOperand()) << ",[";
                    bool f = true; for (auto i : iv->indices()) { if (!f) out << ","; f = false; out << i; } out << "]";
                } else if (isa<CastInst>(&I)) {
                    out << "," << operand(C, I.getOperand(0)) << "," << ty(I.getOperand(0)->getType());
                } else {
                    for (auto &o : I.operands()) out << "," << operand(C, o.get());
                }
                out << "]";
            }
            out << "]";
        }
        out << "]}";
    }
    out << "},\n\"decls\":{";
    bool f = true;
    for (auto &F : *M) if (F.isDeclaration()) {
        if (!f) out << ",\n"; f = false;
        out << esc(F.getName()) << ":{\"dem\":" << esc(demangle(F.getName())) << ",\"nounwind\":" << (F.doesNotThrow() ? 1 : 0)
            << ",\"noreturn\":" << (F.doesNotReturn() ? 1 : 0) << ",\"ret\":" << ty(F.getReturnType()) << ",\"sret\":" << ((F.arg_size() && F.hasStructRetAttr()) ? 1 : 0) << "}";
    }
    out << "},\n\"globals\":{";
    f = true;
    for (auto &G : M->globals()) {
        if (!f) out << ",\n"; f = false;
        out << esc(G.getName()) << ":{\"dem\":" << esc(demangle(G.getName())) << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"size\":" << tySize(G.getValueType());
        SmallVector<DIGlobalVariableExpression*, 1> gv; G.getDebugInfo(gv);
        if (!gv.empty()) {
            auto *v = gv[0]->getVariable();
            out << ",\"file\":" << esc(diFile(v->getScope())) << ",\"line\":" << v->getLine() << ",\"dty\":" << esc(diTypeName(v->getType())) << ",\"nm\":" << esc(v->getName());
        }
        if (G.hasInitializer()) {
            std::vector<std::string> items; int budget = 8000;
            flatten(G.getInitializer(), 0, items, budget);
            out << ",\"init\":[";
            bool f2 = true; for (auto &s : items) { if (!f2) out << ","; f2 = false; out << s; }
            out << "]";
        }
        SmallVector<MDNode*, 2> tm; G.getMetadata(LLVMContext::MD_type, tm);
        if (!tm.empty()) {
            out << ",\"types\":[";
            bool f2 = true;
            for (auto *n : tm) {
                auto *o = cast<ConstantAsMetadata>(n->getOperand(0))->getValue();
                auto *s = dyn_cast<MDString>(n->getOperand(1));
                if (!s) continue;
                if (!f2) out << ","; f2 = false;
                out << "[" << cast<ConstantInt>(o)->getZExtValue() << "," << esc(s->getString()) << "]";
            }
            out << "]";
        }
        out << "}";
    }
    out << "},\n\"classes\":{";
    DebugInfoFinder DF;
    DF.processModule(*M);
    f = true;
    std::set<std::string> seen;
    for (auto *t : DF.types()) {
        auto *ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->isForwardDecl()) continue;
        if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_union_type) continue;
        std::string nm = diTypeName(ct);
        if (nm.empty() || !seen.insert(nm).second) continue;
        if (!f) out << ",\n"; f = false;
        out << esc(nm) << ":{\"size\":" << ct->getSizeInBits() / 8 << ",\"file\":" << esc(diFile(ct)) << ",\"id\":" << esc(ct->getIdentifier()) << ",\"m\":[";
        bool f2 = true;
        for (auto *e : ct->getElements()) {
            auto *m = dyn_cast<DIDerivedType>(e);
            if (!m || m->isStaticMember()) continue;
            bool inh = m->getTag() == dwarf::DW_TAG_inheritance;
            if (!inh && m->getTag() != dwarf::DW_TAG_member) continue;
            if (!f2) out << ","; f2 = false;
            const DIType *bt = m->getBaseType();
            uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
            const DIType *sb = stripTD(bt);
            if (sb && !sz) sz = sb->getSizeInBits() / 8;
            std::string key = sb && isa<DICompositeType>(sb) ? diTypeName(sb) : "";
            out << "[" << (inh ? "\"<base>\"" : esc(m->getName())) << "," << m->getOffsetInBits() / 8 << "," << sz << "," << esc(diTypeName(bt)) << "," << esc(key) << "]";
        }
        out << "]}";
    }
    out << "},\"enums\":{";
    f = true; seen.clear();
    for (auto *t : DF.types()) {
        auto *ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->getTag() != dwarf::DW_TAG_enumeration_type || ct->isForwardDecl()) continue;
        std::string nm = diTypeName(ct);
        std::string fl = diFile(ct);
        if (nm.empty() || fl.find("/src/") == std::string::npos || !seen.insert(nm).second) continue;
        if (!f) out << ",\n"; f = false;
        out << esc(nm) << ":{";
        bool f2 = true;
        for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { if (!f2) out << ","; f2 = false; out << esc(en->getName()) << ":" << en->getValue().getSExtValue(); }
        out << "}";
    }
    out << "}}\n";
    return 0;
}
