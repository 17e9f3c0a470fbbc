// LLVM IR -> compact register code
#include "interp.h"
#include <llvm/IR/Operator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

TypeInfo *Engine::ti(Type *t) {
    auto it = tinfo.find(t);
    if (it != tinfo.end()) return it->second;
    TypeInfo *r = new TypeInfo;
    r->size = t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 0;
    std::function<void(Type *, uint32_t)> rec = [&](Type *x, uint32_t off) {
        if (x->isVoidTy()) return;
        if (auto *s = dyn_cast<StructType>(x)) {
            auto *sl = DL->getStructLayout(s);
            for (unsigned i = 0; i < s->getNumElements(); i++) rec(s->getElementType(i), off + (uint32_t)sl->getElementOffset(i));
        } else if (auto *a = dyn_cast<ArrayType>(x)) {
            uint64_t es = DL->getTypeAllocSize(a->getElementType());
            for (uint64_t i = 0; i < a->getNumElements(); i++) rec(a->getElementType(), off + i * es);
        } else if (auto *v = dyn_cast<FixedVectorType>(x)) {
            uint64_t bits = DL->getTypeSizeInBits(v->getElementType());
            uint64_t es = (bits + 7) / 8;
            for (unsigned i = 0; i < v->getNumElements(); i++) {
                Leaf l;
                l.off = off + i * es;
                l.bits = v->getElementType()->isPointerTy() ? 64 : bits;
                l.kind = v->getElementType()->isFloatingPointTy() ? 1 : v->getElementType()->isPointerTy() ? 2 : 0;
                l.bytes = es;
                r->leaves.push_back(l);
            }
        } else {
            Leaf l;
            l.off = off;
            if (x->isPointerTy()) { l.bits = 64; l.kind = 2; }
            else if (x->isFloatingPointTy()) { l.bits = x->getPrimitiveSizeInBits(); l.kind = 1; }
            else if (x->isIntegerTy()) { l.bits = x->getIntegerBitWidth(); l.kind = 0; }
            else { l.bits = 8; l.kind = 0; }
            l.bytes = (l.bits + 7) / 8;
            r->leaves.push_back(l);
        }
    };
    if (!t->isVoidTy() && !t->isLabelTy() && !t->isMetadataTy() && !t->isTokenTy()) rec(t, 0);
    tinfo[t] = r;
    return r;
}

uint64_t Engine::fnAddr(const Function *F) {
    auto it = fnIds.find(F);
    if (it == fnIds.end()) {
        it = fnIds.emplace(F, fnById.size()).first;
        fnById.push_back(F);
    }
    return FN_BASE + 16 * (uint64_t)it->second;
}
const Function *Engine::fnAt(uint64_t a) {
    if (a < FN_BASE) return nullptr;
    uint64_t i = (a - FN_BASE) / 16;
    return i < fnById.size() && (a - FN_BASE) % 16 == 0 ? fnById[i] : nullptr;
}
uint64_t Engine::globalAddr(const GlobalVariable *g, int rank) {
    auto it = gIds.find(g);
    if (it == gIds.end()) throw Abort{"engine", "unknown global", false};
    return addrOf(1 + (uint32_t)rank * globals.size() + it->second);
}

static Val cv(uint64_t c) { return Val{c, nullptr}; }

void Engine::constLeaves(const Constant *C, int rank, std::vector<Val> &out) {
    Type *t = C->getType();
    if (auto *ci = dyn_cast<ConstantInt>(C)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) out.push_back(cv(ci->getZExtValue()));
        else {
            u128 v = ci->getValue().getRawData()[0];
            if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64;
            out.push_back(Val{0, mkConst(v, w)});
        }
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(C)) {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        if (b.getBitWidth() <= 64) out.push_back(cv(b.getZExtValue()));
        else {
            u128 v = b.getRawData()[0];
            if (b.getNumWords() > 1) v |= (u128)b.getRawData()[1] << 64;
            out.push_back(Val{0, mkConst(v, b.getBitWidth(), S_FP)});
        }
        return;
    }
    if (isa<ConstantPointerNull>(C)) { out.push_back(cv(0)); return; }
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
        for (auto &l : ti(t)->leaves) {
            if (l.bits > 64) out.push_back(Val{0, mkConst(0, l.bits, l.kind == 1 ? S_FP : S_BV)});
            else out.push_back(cv(0));
        }
        return;
    }
    if (auto *f = dyn_cast<Function>(C)) { out.push_back(cv(fnAddr(f))); return; }
    if (auto *g = dyn_cast<GlobalVariable>(C)) { out.push_back(cv(globalAddr(g, rank))); return; }
    if (auto *ga = dyn_cast<GlobalAlias>(C)) { constLeaves(ga->getAliasee(), rank, out); return; }
    if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < cds->getNumElements(); i++) constLeaves(cds->getElementAsConstant(i), rank, out);
        return;
    }
    if (isa<ConstantAggregate>(C)) {
        for (unsigned i = 0; i < C->getNumOperands(); i++) constLeaves(cast<Constant>(C->getOperand(i)), rank, out);
        return;
    }
    if (auto *ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            std::vector<Val> b;
            constLeaves(cast<Constant>(ce->getOperand(0)), rank, b);
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
            out.push_back(cv(b[0].c + off.getSExtValue()));
            return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            std::vector<Val> b;
            constLeaves(cast<Constant>(ce->getOperand(0)), rank, b);
            int w = DL->getTypeSizeInBits(t);
            out.push_back(cv(w >= 64 ? b[0].c : b[0].c & ((1ULL << w) - 1)));
            return;
        }
        case Instruction::Sub: case Instruction::Add: {
            std::vector<Val> a, b;
            constLeaves(cast<Constant>(ce->getOperand(0)), rank, a);
            constLeaves(cast<Constant>(ce->getOperand(1)), rank, b);
            uint64_t v = ce->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c + b[0].c;
            int w = t->getIntegerBitWidth();
            out.push_back(cv(w >= 64 ? v : v & ((1ULL << w) - 1)));
            return;
        }
        case Instruction::ICmp: {
            std::vector<Val> a, b;
            constLeaves(cast<Constant>(ce->getOperand(0)), rank, a);
            constLeaves(cast<Constant>(ce->getOperand(1)), rank, b);
            bool eq = a[0].c == b[0].c;
            out.push_back(cv(ce->getPredicate() == CmpInst::ICMP_EQ ? eq : !eq));
            return;
        }
        default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    C->print(os);
    throw Abort{"engine", "constant not supported: " + s, false};
}

std::vector<Val> &Engine::cpoolFor(DFunc *f, int rank) {
    if ((int)f->cpool.size() <= rank) f->cpool.resize(std::max(opt.nranks, rank + 1));
    auto &p = f->cpool[rank];
    if (p.empty() && !f->consts.empty())
        for (auto *c : f->consts) constLeaves(c, rank, p);
    return p;
}

static Op binOp(unsigned oc) {
    switch (oc) {
    case Instruction::Add: return O_ADD;
    case Instruction::Sub: return O_SUB;
    case Instruction::Mul: return O_MUL;
    case Instruction::UDiv: return O_UDIV;
    case Instruction::SDiv: return O_SDIV;
    case Instruction::URem: return O_UREM;
    case Instruction::SRem: return O_SREM;
    case Instruction::Shl: return O_SHL;
    case Instruction::LShr: return O_LSHR;
    case Instruction::AShr: return O_ASHR;
    case Instruction::And: return O_AND;
    case Instruction::Or: return O_OR;
    case Instruction::Xor: return O_XOR;
    case Instruction::FAdd: return O_FADD;
    case Instruction::FSub: return O_FSUB;
    case Instruction::FMul: return O_FMUL;
    case Instruction::FDiv: return O_FDIV;
    case Instruction::FRem: return O_FREM;
    }
    return O_NOPS;
}

DFunc *Engine::decode(const Function *F) {
    auto it = dfs.find(F);
    if (it != dfs.end()) return it->second;
    DFunc *d = new DFunc;
    dfs[F] = d;
    d->F = F;
    d->name = F->getName().str();
    d->nregs = 0;
    std::unordered_map<const Value *, int32_t> reg;
    std::unordered_map<const Constant *, int32_t> cidx;
    uint32_t cnext = 0;
    auto newReg = [&](const Value *v) {
        int32_t b = d->nregs;
        reg[v] = b;
        d->nregs += nleaves(v->getType());
        return b;
    };
    for (auto &a : F->args()) d->argBase.push_back(newReg(&a));
    for (auto &bb : *F)
        for (auto &I : bb)
            if (!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) newReg(&I);
    auto opnd = [&](const Value *v) -> int32_t {
        if (auto *c = dyn_cast<Constant>(v)) {
            auto f = cidx.find(c);
            if (f != cidx.end()) return ~f->second;
            int32_t i = cnext;
            cidx[c] = i;
            d->consts.push_back(c);
            cnext += nleaves(c->getType());
            return ~i;
        }
        auto f = reg.find(v);
        if (f == reg.end()) {
            if (isa<MetadataAsValue>(v)) return 0;
            if (isa<InlineAsm>(v)) return 0;
            throw Abort{"engine", "operand not decoded in " + d->name, false};
        }
        return f->second;
    };
    auto shiftOp = [](int32_t o, int k) { return o >= 0 ? o + k : ~(~o + k); };
    std::unordered_map<const BasicBlock *, uint32_t> bidx;
    uint32_t nb = 0;
    for (auto &bb : *F) bidx[&bb] = nb++;
    d->blockStart.resize(nb);
    auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> uint32_t {
        Edge e;
        e.target = bidx[to];
        for (auto &phi : to->phis()) {
            int32_t src = opnd(phi.getIncomingValueForBlock(from)), dst = reg[&phi];
            uint32_t n = nleaves(phi.getType());
            for (uint32_t i = 0; i < n; i++) e.moves.push_back({dst + (int32_t)i, shiftOp(src, i)});
        }
        d->edges.push_back(std::move(e));
        return d->edges.size() - 1;
    };
    for (auto &bb : *F) {
        d->blockStart[bidx[&bb]] = d->code.size();
        for (auto &I : bb) {
            if (isa<PHINode>(I)) continue;
            DInst x;
            memset(&x, 0, sizeof x);
            x.I = &I;
            x.dst = reg.count(&I) ? reg[&I] : -1;
            Type *t = I.getType();
            auto scalarBits = [&](Type *ty) { return (uint16_t)(ty->getScalarType()->isPointerTy() ? 64 : ty->getScalarSizeInBits()); };
            if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
                x.op = t->isFPOrFPVectorTy() ? D_FBIN : D_BIN;
                x.sub = binOp(bo->getOpcode());
                x.w = scalarBits(t);
                x.n = nleaves(t);
                x.a = opnd(bo->getOperand(0));
                x.b = opnd(bo->getOperand(1));
            } else if (auto *uo = dyn_cast<UnaryOperator>(&I)) {
                x.op = D_FNEG;
                x.w = scalarBits(t);
                x.n = nleaves(t);
                x.a = opnd(uo->getOperand(0));
            } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
                x.op = D_ICMP;
                x.sub = ic->getPredicate();
                x.w = scalarBits(ic->getOperand(0)->getType());
                x.n = nleaves(t);
                x.a = opnd(ic->getOperand(0));
                x.b = opnd(ic->getOperand(1));
            } else if (auto *fcm = dyn_cast<FCmpInst>(&I)) {
                x.op = D_FCMP;
                x.sub = fcm->getPredicate();
                x.w = scalarBits(fcm->getOperand(0)->getType());
                x.n = nleaves(t);
                x.a = opnd(fcm->getOperand(0));
                x.b = opnd(fcm->getOperand(1));
            } else if (auto *ca = dyn_cast<CastInst>(&I)) {
                x.op = D_CAST;
                x.sub = ca->getOpcode();
                x.w = scalarBits(ca->getSrcTy());
                x.w2 = scalarBits(t);
                x.n = nleaves(t);
                x.ext = nleaves(ca->getSrcTy());
                x.flags = (t->isFPOrFPVectorTy() ? 1 : 0) | (ca->getSrcTy()->isFPOrFPVectorTy() ? 2 : 0);
                x.a = opnd(ca->getOperand(0));
            } else if (auto *se = dyn_cast<SelectInst>(&I)) {
                x.op = D_SELECT;
                x.n = nleaves(t);
                x.w = scalarBits(t);
                x.flags = se->getCondition()->getType()->isVectorTy() ? 1 : 0;
                x.a = opnd(se->getCondition());
                x.b = opnd(se->getTrueValue());
                x.c = opnd(se->getFalseValue());
                d->tis.push_back(ti(t));
                x.ext = d->tis.size() - 1;
            } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
                x.op = D_LOAD;
                x.a = opnd(ld->getPointerOperand());
                d->tis.push_back(ti(t));
                x.ext = d->tis.size() - 1;
                x.n = nleaves(t);
            } else if (auto *sto = dyn_cast<StoreInst>(&I)) {
                x.op = D_STORE;
                x.a = opnd(sto->getValueOperand());
                x.b = opnd(sto->getPointerOperand());
                d->tis.push_back(ti(sto->getValueOperand()->getType()));
                x.ext = d->tis.size() - 1;
                x.n = nleaves(sto->getValueOperand()->getType());
            } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
                x.op = D_ALLOCA;
                x.a = opnd(al->getArraySize());
                x.ext = (uint32_t)DL->getTypeAllocSize(al->getAllocatedType());
            } else if (auto *gp = dyn_cast<GetElementPtrInst>(&I)) {
                x.op = D_GEP;
                x.a = opnd(gp->getPointerOperand());
                x.n = nleaves(t);
                GepInfo gi;
                gi.off = 0;
                if (t->isVectorTy()) { x.op = D_UNSUP; }
                for (auto gti = gep_type_begin(gp), ge = gep_type_end(gp); gti != ge; ++gti) {
                    Value *ix = gti.getOperand();
                    if (StructType *s = gti.getStructTypeOrNull()) {
                        gi.off += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) gi.off += sc * ci->getSExtValue();
                        else gi.terms.push_back({opnd(ix), (uint16_t)ix->getType()->getScalarSizeInBits(), sc});
                    }
                }
                d->geps.push_back(gi);
                x.ext = d->geps.size() - 1;
            } else if (auto *br = dyn_cast<BranchInst>(&I)) {
                if (br->isUnconditional()) {
                    x.op = D_BR;
                    x.ext = edge(&bb, br->getSuccessor(0));
                } else {
                    x.op = D_CBR;
                    x.a = opnd(br->getCondition());
                    x.ext = edge(&bb, br->getSuccessor(0));
                    x.b = edge(&bb, br->getSuccessor(1));
                }
            } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
                x.op = D_SWITCH;
                x.a = opnd(sw->getCondition());
                x.w = scalarBits(sw->getCondition()->getType());
                SwitchInfo si;
                for (auto &c : sw->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), edge(&bb, c.getCaseSuccessor())});
                si.def = edge(&bb, sw->getDefaultDest());
                d->sw.push_back(si);
                x.ext = d->sw.size() - 1;
            } else if (auto *re = dyn_cast<ReturnInst>(&I)) {
                x.op = D_RET;
                x.n = re->getReturnValue() ? nleaves(re->getReturnValue()->getType()) : 0;
                if (re->getReturnValue()) x.a = opnd(re->getReturnValue());
            } else if (isa<UnreachableInst>(&I)) {
                x.op = D_UNREACH;
            } else if (auto *cb = dyn_cast<CallBase>(&I)) {
                x.op = D_CALL;
                CallInfo ci;
                ci.df = nullptr;
                ci.ext = nullptr;
                ci.extLooked = false;
                ci.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (!ci.callee)
                    if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) ci.callee = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
                ci.fnop = ci.callee ? 0 : opnd(cb->getCalledOperand());
                bool isDbg = ci.callee && ci.callee->isIntrinsic() &&
                             (ci.callee->getName().starts_with("llvm.dbg") || ci.callee->getName().starts_with("llvm.lifetime") ||
                              ci.callee->getName().starts_with("llvm.experimental.noalias") || ci.callee->getName().starts_with("llvm.assume") ||
                              ci.callee->getName().starts_with("llvm.invariant") || ci.callee->getName().starts_with("llvm.prefetch"));
                if (isDbg) continue;
                for (auto &a : cb->args()) {
                    ci.args.push_back(opnd(a.get()));
                    ci.nleaf.push_back(a->getType()->isMetadataTy() ? 0 : nleaves(a->getType()));
                    ci.tys.push_back(a->getType());
                }
                ci.retTy = t;
                ci.nret = nleaves(t);
                ci.contEdge = -1;
                if (auto *inv = dyn_cast<InvokeInst>(cb)) ci.contEdge = edge(&bb, inv->getNormalDest());
                d->calls.push_back(ci);
                x.ext = d->calls.size() - 1;
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                x.op = D_COPY;
                uint32_t off = 0;
                Type *at = ev->getAggregateOperand()->getType();
                for (unsigned ix : ev->indices()) {
                    if (auto *s = dyn_cast<StructType>(at)) {
                        for (unsigned j = 0; j < ix; j++) off += nleaves(s->getElementType(j));
                        at = s->getElementType(ix);
                    } else {
                        at = cast<ArrayType>(at)->getElementType();
                        off += ix * nleaves(at);
                    }
                }
                x.n = nleaves(t);
                x.a = shiftOp(opnd(ev->getAggregateOperand()), off);
            } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                x.op = D_INSERT;
                uint32_t off = 0;
                Type *at = t;
                for (unsigned ix : iv->indices()) {
                    if (auto *s = dyn_cast<StructType>(at)) {
                        for (unsigned j = 0; j < ix; j++) off += nleaves(s->getElementType(j));
                        at = s->getElementType(ix);
                    } else {
                        at = cast<ArrayType>(at)->getElementType();
                        off += ix * nleaves(at);
                    }
                }
                x.n = nleaves(t);
                x.a = opnd(iv->getAggregateOperand());
                x.b = opnd(iv->getInsertedValueOperand());
                x.ext = off;
                x.w = nleaves(iv->getInsertedValueOperand()->getType());
            } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
                x.op = D_EXTELT;
                x.a = opnd(ee->getVectorOperand());
                x.b = opnd(ee->getIndexOperand());
                x.w = scalarBits(ee->getIndexOperand()->getType());
                x.n = nleaves(ee->getVectorOperand()->getType());
            } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
                x.op = D_INSELT;
                x.a = opnd(ie->getOperand(0));
                x.b = opnd(ie->getOperand(1));
                x.c = opnd(ie->getOperand(2));
                x.w = scalarBits(ie->getOperand(2)->getType());
                x.n = nleaves(t);
            } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
                x.op = D_SHUF;
                x.a = opnd(sv->getOperand(0));
                x.b = opnd(sv->getOperand(1));
                x.n = nleaves(t);
                x.w = nleaves(sv->getOperand(0)->getType());
                std::vector<int> m;
                for (int v : sv->getShuffleMask()) m.push_back(v);
                d->shufs.push_back(m);
                x.ext = d->shufs.size() - 1;
            } else if (auto *fr = dyn_cast<FreezeInst>(&I)) {
                x.op = D_COPY;
                x.n = nleaves(t);
                x.a = opnd(fr->getOperand(0));
            } else if (auto *ar = dyn_cast<AtomicRMWInst>(&I)) {
                x.op = D_ATOMICRMW;
                x.sub = ar->getOperation();
                x.a = opnd(ar->getPointerOperand());
                x.b = opnd(ar->getValOperand());
                d->tis.push_back(ti(t));
                x.ext = d->tis.size() - 1;
                x.w = scalarBits(t);
            } else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                x.op = D_CMPXCHG;
                x.a = opnd(cx->getPointerOperand());
                x.b = opnd(cx->getCompareOperand());
                x.c = opnd(cx->getNewValOperand());
                d->tis.push_back(ti(cx->getNewValOperand()->getType()));
                x.ext = d->tis.size() - 1;
                x.w = scalarBits(cx->getNewValOperand()->getType());
            } else if (isa<FenceInst>(&I)) {
                continue;
            } else if (isa<LandingPadInst>(&I) || isa<ResumeInst>(&I)) {
                x.op = D_UNREACH;
            } else
                x.op = D_UNSUP;
            d->code.push_back(x);
        }
    }
    if (d->nregs == 0) d->nregs = 1;
    return d;
}
