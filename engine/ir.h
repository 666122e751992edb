// Loads LLVM IR and turns it into a compact form that the interpreter walks.
#pragma once
#include "num.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/APInt.h>
#include <unordered_map>
#include <map>
#include <memory>
#include <string>
#include <vector>

enum class Op : uint8_t { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, ICmp, Select, ZExt, SExt, Trunc, Move, Br, CondBr, Switch, Ret, Alloca, Load, Store, Gep, Call, CallInd, Ctlz, Cttz, Ctpop, MemCpy, MemSet, MemMove, Extract, Insert, Unreachable, UMin, UMax, SMin, SMax, Abs, AddOv, SubOv, MulOv, Fshl, Fshr, Bswap, Nop, Assume, PtrToInt, Unsupported, Freeze };

struct GlobalObj { std::string name; bool isConst = false, hasInit = false, isFn = false; std::vector<uint8_t> bytes; std::map<uint64_t, std::pair<int, int64_t>> relocs; std::vector<uint8_t> undef; const llvm::GlobalValue* gv = nullptr; };

// constant operand
struct Const { enum K { Int, Ptr, Null, Undef, Poison, Agg, Fp, Fn } k = Int; unsigned w = 0; Z z; int glob = -1; int64_t off = 0; std::vector<int> agg; std::string fn; };

struct Phi { int dst; std::vector<std::pair<int, int>> in; /* pred block, operand */ };
struct Inst {
	Op op; uint8_t pred = 0; uint16_t w = 0; int dst = -1; int a = INT32_MIN, b = INT32_MIN, c = INT32_MIN; uint8_t flags = 0; // 1 nuw 2 nsw 4 exact 8 volatile/other
	uint8_t kind = 0; // type kind of the result: 0 int 1 ptr 2 fp 3 agg
	std::vector<int> ex; std::vector<Z> exz; std::string s; int line = 0; int file = 0; const char* fn = "";
	uint64_t size = 0;
};
struct BlockI { std::vector<Phi> phis; std::vector<Inst> ins; };
struct FnI { std::string name; int nregs = 0; int nargs = 0; std::vector<BlockI> blocks; bool hasFP = false; };

struct TypeDesc { uint8_t kind; unsigned w; uint64_t size; std::vector<std::pair<uint64_t, int>> f; }; // aggregate fields: offset,type index

struct Program {
	llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> mod; const llvm::DataLayout* dl = nullptr;
	std::vector<Const> consts; std::vector<GlobalObj> globals; std::unordered_map<const llvm::GlobalValue*, int> gidx;
	std::map<std::string, std::unique_ptr<FnI>> fns; std::vector<std::string> files; std::map<std::string, int> fidx;
	std::vector<TypeDesc> types; std::map<llvm::Type*, int> tidx;
	std::map<const llvm::Constant*, int> cidx;
	unsigned ptrBits = 64;

	static Z toZ(const llvm::APInt& v) { Z r = 0; for (int i = (int)v.getNumWords() - 1; i >= 0; i--) { r <<= 64; Z w; uint64_t d = v.getRawData()[i]; mpz_import(w.get_mpz_t(), 1, 1, 8, 0, 0, &d); r += w; } return r; }
	int typeOf(llvm::Type* t) {
		auto it = tidx.find(t); if (it != tidx.end()) return it->second;
		TypeDesc d; d.kind = 0; d.w = 0; d.size = t->isSized() ? (uint64_t)dl->getTypeStoreSize(t) : 0;
		if (t->isIntegerTy()) d.w = t->getIntegerBitWidth();
		else if (t->isPointerTy()) { d.kind = 1; d.w = ptrBits; }
		else if (t->isFloatTy() || t->isDoubleTy()) { d.kind = 2; d.w = t->isFloatTy() ? 32 : 64; }
		else if (auto* s = llvm::dyn_cast<llvm::StructType>(t)) { d.kind = 3; if (!s->isOpaque()) { auto* sl = dl->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) { int x = typeOf(s->getElementType(i)); d.f.push_back({ (uint64_t)sl->getElementOffset(i), x }); } } }
		else if (auto* a = llvm::dyn_cast<llvm::ArrayType>(t)) { d.kind = 3; uint64_t es = dl->getTypeAllocSize(a->getElementType()); int x = typeOf(a->getElementType()); if (a->getNumElements() <= 4096) for (uint64_t i = 0; i < a->getNumElements(); i++) d.f.push_back({ i * es, x }); else d.kind = 9; }
		else d.kind = 9;
		types.push_back(d); int id = (int)types.size() - 1; tidx[t] = id; return id;
	}
	int globalOf(const llvm::GlobalValue* g) {
		auto it = gidx.find(g); if (it != gidx.end()) return it->second;
		int id = (int)globals.size(); gidx[g] = id; globals.emplace_back(); globals[id].name = g->getName().str(); globals[id].gv = g;
		if (auto* f = llvm::dyn_cast<llvm::Function>(g)) { (void)f; globals[id].isFn = true; return id; }
		auto* v = llvm::dyn_cast<llvm::GlobalVariable>(g); if (!v) return id;
		bool c = v->isConstant(); uint64_t sz = dl->getTypeAllocSize(v->getValueType());
		GlobalObj o; o.name = g->getName().str(); o.gv = g; o.isConst = c; o.bytes.assign(sz, 0); o.undef.assign(sz, 0);
		if (v->hasInitializer() && (c || true)) { o.hasInit = true; fill(o, 0, v->getInitializer()); }
		globals[id] = std::move(o); return id;
	}
	void fill(GlobalObj& o, uint64_t off, const llvm::Constant* c) {
		using namespace llvm;
		if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
		if (isa<UndefValue>(c)) { uint64_t n = dl->getTypeStoreSize(c->getType()); for (uint64_t i = 0; i < n; i++) o.undef[off + i] = 1; return; }
		if (auto* ci = dyn_cast<ConstantInt>(c)) { Z z = toZ(ci->getValue()); uint64_t n = dl->getTypeStoreSize(c->getType()); for (uint64_t i = 0; i < n; i++) { Z b = z & 255; o.bytes[off + i] = (uint8_t)b.get_ui(); z >>= 8; } return; }
		if (auto* cf = dyn_cast<ConstantFP>(c)) { Z z = toZ(cf->getValueAPF().bitcastToAPInt()); uint64_t n = dl->getTypeStoreSize(c->getType()); for (uint64_t i = 0; i < n; i++) { Z b = z & 255; o.bytes[off + i] = (uint8_t)b.get_ui(); z >>= 8; } return; }
		if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = dl->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) fill(o, off + i * es, cd->getElementAsConstant(i)); return; }
		if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = dl->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) fill(o, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
		if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = dl->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) fill(o, off + i * es, ca->getOperand(i)); return; }
		// pointers
		llvm::APInt ap(dl->getIndexTypeSizeInBits(c->getType()->isPointerTy() ? c->getType() : llvm::PointerType::get(ctx, 0)), 0);
		const Value* base = c->getType()->isPointerTy() ? c->stripAndAccumulateConstantOffsets(*dl, ap, true) : nullptr;
		if (base && isa<GlobalValue>(base)) { int g = globalOf(cast<GlobalValue>(base)); o.relocs[off] = { g, ap.getSExtValue() }; return; }
		uint64_t n = dl->getTypeStoreSize(c->getType()); for (uint64_t i = 0; i < n; i++) o.undef[off + i] = 2;
	}
	int addConst(Const c) { consts.push_back(std::move(c)); return -1 - (int)(consts.size() - 1); }
	int constOf(const llvm::Constant* c) {
		auto it = cidx.find(c); if (it != cidx.end()) return it->second;
		using namespace llvm; Const k; Type* t = c->getType();
		k.w = t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? ptrBits : 0;
		if (isa<PoisonValue>(c)) k.k = Const::Poison;
		else if (isa<UndefValue>(c)) k.k = Const::Undef;
		else if (auto* ci = dyn_cast<ConstantInt>(c)) { k.k = Const::Int; k.z = toZ(ci->getValue()); }
		else if (auto* cf = dyn_cast<ConstantFP>(c)) { k.k = Const::Fp; k.z = toZ(cf->getValueAPF().bitcastToAPInt()); k.w = t->isFloatTy() ? 32 : 64; }
		else if (isa<ConstantPointerNull>(c)) k.k = Const::Null;
		else if (t->isPointerTy()) {
			APInt ap(dl->getIndexTypeSizeInBits(t), 0); const llvm::Value* base = c->stripAndAccumulateConstantOffsets(*dl, ap, true);
			if (auto* f = dyn_cast<Function>(base)) { k.k = Const::Fn; k.fn = f->getName().str(); }
			else if (auto* g = dyn_cast<GlobalValue>(base)) { k.k = Const::Ptr; k.glob = globalOf(g); k.off = ap.getSExtValue(); }
			else k.k = Const::Poison;
		}
		else if (t->isStructTy() || t->isArrayTy()) {
			k.k = Const::Agg; unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
			if (n > 4096) n = 0;
			for (unsigned i = 0; i < n; i++) { auto* e = c->getAggregateElement(i); k.agg.push_back(e ? constOf(e) : addConst(Const{ Const::Poison })); }
		}
		else k.k = Const::Poison;
		int id = addConst(k); cidx[c] = id; return id;
	}
	int fileOf(const std::string& f) { auto it = fidx.find(f); if (it != fidx.end()) return it->second; files.push_back(f); return fidx[f] = (int)files.size() - 1; }

	bool load(const std::string& path, std::string& err) {
		llvm::SMDiagnostic d; mod = llvm::parseIRFile(path, d, ctx);
		if (!mod) { err = d.getMessage().str(); return false; }
		dl = &mod->getDataLayout(); ptrBits = dl->getPointerSizeInBits();
		for (auto& f : *mod) if (!f.isDeclaration()) conv(f);
		return true;
	}
	void conv(llvm::Function& F) {
		using namespace llvm;
		auto fi = std::make_unique<FnI>(); fi->name = F.getName().str();
		std::unordered_map<const llvm::Value*, int> reg; std::unordered_map<const BasicBlock*, int> bid; int nr = 0, nb = 0;
		for (auto& a : F.args()) reg[&a] = nr++;
		fi->nargs = nr;
		for (auto& B : F) { bid[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = nr++; }
		fi->nregs = nr; fi->blocks.resize(nb);
		auto opd = [&](const llvm::Value* v) -> int { if (auto* c = dyn_cast<Constant>(v)) return constOf(c); auto it = reg.find(v); return it == reg.end() ? INT32_MIN : it->second; };
		for (auto& B : F) {
			BlockI& bl = fi->blocks[bid[&B]];
			for (auto& I : B) {
				if (auto* p = dyn_cast<PHINode>(&I)) { Phi ph; ph.dst = reg[p]; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) ph.in.push_back({ bid[p->getIncomingBlock(i)], opd(p->getIncomingValue(i)) }); bl.phis.push_back(ph); continue; }
				if (isa<DbgInfoIntrinsic>(&I)) continue;
				Inst n; n.op = Op::Unsupported; Type* ty = I.getType();
				if (!ty->isVoidTy()) { n.dst = reg[&I]; int td = typeOf(ty); n.kind = types[td].kind; n.w = (uint16_t)types[td].w; }
				if (auto dlc = I.getDebugLoc()) { n.line = dlc.getLine(); if (auto* sc = dyn_cast_or_null<DIScope>(dlc.getScope())) { n.file = fileOf(sc->getFilename().str()); if (auto* sp = cast<DILocalScope>(dlc.getScope())->getSubprogram()) n.fn = strdup(sp->getName().str().c_str()); } }
				else n.file = fileOf("");
				if (auto* o = dyn_cast<OverflowingBinaryOperator>(&I)) { if (o->hasNoUnsignedWrap()) n.flags |= 1; if (o->hasNoSignedWrap()) n.flags |= 2; }
				auto bin = [&](Op op) { n.op = op; n.a = opd(I.getOperand(0)); n.b = opd(I.getOperand(1)); };
				switch (I.getOpcode()) {
				case Instruction::Add: bin(Op::Add); break; case Instruction::Sub: bin(Op::Sub); break; case Instruction::Mul: bin(Op::Mul); break;
				case Instruction::UDiv: bin(Op::UDiv); break; case Instruction::SDiv: bin(Op::SDiv); break; case Instruction::URem: bin(Op::URem); break; case Instruction::SRem: bin(Op::SRem); break;
				case Instruction::Shl: bin(Op::Shl); break; case Instruction::LShr: bin(Op::LShr); break; case Instruction::AShr: bin(Op::AShr); break;
				case Instruction::And: bin(Op::And); break; case Instruction::Or: bin(Op::Or); break; case Instruction::Xor: bin(Op::Xor); break;
				case Instruction::ICmp: { bin(Op::ICmp); n.pred = (uint8_t)cast<ICmpInst>(&I)->getPredicate(); auto* t0 = I.getOperand(0)->getType(); n.w = t0->isPointerTy() ? ptrBits : t0->isIntegerTy() ? t0->getIntegerBitWidth() : 0; break; }
				case Instruction::Select: n.op = Op::Select; n.a = opd(I.getOperand(0)); n.b = opd(I.getOperand(1)); n.c = opd(I.getOperand(2)); break;
				case Instruction::ZExt: n.op = Op::ZExt; n.a = opd(I.getOperand(0)); n.size = I.getOperand(0)->getType()->isIntegerTy() ? I.getOperand(0)->getType()->getIntegerBitWidth() : 0; break;
				case Instruction::SExt: n.op = Op::SExt; n.a = opd(I.getOperand(0)); n.size = I.getOperand(0)->getType()->isIntegerTy() ? I.getOperand(0)->getType()->getIntegerBitWidth() : 0; break;
				case Instruction::Trunc: n.op = Op::Trunc; n.a = opd(I.getOperand(0)); break;
				case Instruction::BitCast: n.op = Op::Move; n.a = opd(I.getOperand(0)); break;
				case Instruction::Freeze: n.op = Op::Freeze; n.a = opd(I.getOperand(0)); break;
				case Instruction::PtrToInt: n.op = Op::PtrToInt; n.a = opd(I.getOperand(0)); break;
				case Instruction::Br: { auto* br = cast<BranchInst>(&I); if (br->isConditional()) { n.op = Op::CondBr; n.a = opd(br->getCondition()); n.ex = { bid[br->getSuccessor(0)], bid[br->getSuccessor(1)] }; } else { n.op = Op::Br; n.ex = { bid[br->getSuccessor(0)] }; } break; }
				case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); n.op = Op::Switch; n.a = opd(s->getCondition()); n.w = s->getCondition()->getType()->getIntegerBitWidth(); n.ex.push_back(bid[s->getDefaultDest()]); for (auto& cs : s->cases()) { n.exz.push_back(toZ(cs.getCaseValue()->getValue())); n.ex.push_back(bid[cs.getCaseSuccessor()]); } break; }
				case Instruction::Ret: n.op = Op::Ret; if (I.getNumOperands()) n.a = opd(I.getOperand(0)); break;
				case Instruction::Unreachable: n.op = Op::Unreachable; break;
				case Instruction::Alloca: { auto* al = cast<AllocaInst>(&I); n.op = Op::Alloca; if (auto* c = dyn_cast<ConstantInt>(al->getArraySize())) n.size = dl->getTypeAllocSize(al->getAllocatedType()) * c->getZExtValue(); else n.op = Op::Unsupported; break; }
				case Instruction::Load: n.op = Op::Load; n.a = opd(I.getOperand(0)); n.size = dl->getTypeStoreSize(ty); n.b = typeOf(ty); if (cast<LoadInst>(&I)->isVolatile() || cast<LoadInst>(&I)->isAtomic()) n.op = Op::Unsupported; break;
				case Instruction::Store: n.op = Op::Store; n.a = opd(I.getOperand(0)); n.b = opd(I.getOperand(1)); n.c = typeOf(I.getOperand(0)->getType()); n.size = dl->getTypeStoreSize(I.getOperand(0)->getType()); if (cast<StoreInst>(&I)->isVolatile() || cast<StoreInst>(&I)->isAtomic()) n.op = Op::Unsupported; break;
				case Instruction::GetElementPtr: {
					auto* g = cast<GEPOperator>(&I); n.op = Op::Gep; n.a = opd(g->getPointerOperand()); n.flags = g->isInBounds() ? 1 : 0; unsigned iw = dl->getIndexTypeSizeInBits(g->getType());
					MapVector<llvm::Value*, APInt> vo; APInt co(iw, 0);
					if (g->collectOffset(*dl, iw, vo, co)) { Z c = toZ(co); if (co.isNegative()) c -= pow2(iw); n.exz.push_back(c); for (auto& kv : vo) { n.ex.push_back(opd(kv.first)); Z s = toZ(kv.second); if (kv.second.isNegative()) s -= pow2(iw); n.exz.push_back(s); n.ex.push_back(kv.first->getType()->getIntegerBitWidth()); } }
					else n.op = Op::Unsupported; break;
				}
				case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(&I); n.op = Op::Extract; n.a = opd(I.getOperand(0)); for (auto i : e->indices()) n.ex.push_back((int)i); break; }
				case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(&I); n.op = Op::Insert; n.a = opd(I.getOperand(0)); n.b = opd(I.getOperand(1)); for (auto i : e->indices()) n.ex.push_back((int)i); n.c = typeOf(ty); break; }
				case Instruction::Call: case Instruction::Invoke: {
					auto* cb = cast<CallBase>(&I); auto* cf = cb->getCalledFunction();
					if (!cf) { n.op = Op::CallInd; n.s = "indirect call"; break; }
					auto arg = [&](unsigned i) { return opd(cb->getArgOperand(i)); };
					switch (cf->getIntrinsicID()) {
					case Intrinsic::memcpy: case Intrinsic::memcpy_inline: n.op = Op::MemCpy; n.a = arg(0); n.b = arg(1); n.c = arg(2); break;
					case Intrinsic::memmove: n.op = Op::MemMove; n.a = arg(0); n.b = arg(1); n.c = arg(2); break;
					case Intrinsic::memset: n.op = Op::MemSet; n.a = arg(0); n.b = arg(1); n.c = arg(2); break;
					case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: n.op = Op::Nop; n.dst = -1; break;
					case Intrinsic::assume: n.op = Op::Assume; n.a = arg(0); break;
					case Intrinsic::expect: n.op = Op::Move; n.a = arg(0); break;
					case Intrinsic::ctlz: n.op = Op::Ctlz; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::cttz: n.op = Op::Cttz; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::ctpop: n.op = Op::Ctpop; n.a = arg(0); break;
					case Intrinsic::umin: n.op = Op::UMin; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::umax: n.op = Op::UMax; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::smin: n.op = Op::SMin; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::smax: n.op = Op::SMax; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::abs: n.op = Op::Abs; n.a = arg(0); n.b = arg(1); break;
					case Intrinsic::fshl: n.op = Op::Fshl; n.a = arg(0); n.b = arg(1); n.c = arg(2); break;
					case Intrinsic::fshr: n.op = Op::Fshr; n.a = arg(0); n.b = arg(1); n.c = arg(2); break;
					case Intrinsic::bswap: n.op = Op::Bswap; n.a = arg(0); break;
					case Intrinsic::uadd_with_overflow: n.op = Op::AddOv; n.a = arg(0); n.b = arg(1); n.flags = 1; n.w = cb->getArgOperand(0)->getType()->getIntegerBitWidth(); break;
					case Intrinsic::usub_with_overflow: n.op = Op::SubOv; n.a = arg(0); n.b = arg(1); n.flags = 1; n.w = cb->getArgOperand(0)->getType()->getIntegerBitWidth(); break;
					case Intrinsic::umul_with_overflow: n.op = Op::MulOv; n.a = arg(0); n.b = arg(1); n.flags = 1; n.w = cb->getArgOperand(0)->getType()->getIntegerBitWidth(); break;
					case Intrinsic::sadd_with_overflow: n.op = Op::AddOv; n.a = arg(0); n.b = arg(1); n.flags = 2; n.w = cb->getArgOperand(0)->getType()->getIntegerBitWidth(); break;
					case Intrinsic::ssub_with_overflow: n.op = Op::SubOv; n.a = arg(0); n.b = arg(1); n.flags = 2; n.w = cb->getArgOperand(0)->getType()->getIntegerBitWidth(); break;
					case Intrinsic::trap: n.op = Op::Call; n.s = "abort"; break;
					case Intrinsic::not_intrinsic: {
						n.op = Op::Call; n.s = cf->getName().str(); for (unsigned i = 0; i < cb->arg_size(); i++) n.ex.push_back(arg(i));
						if (n.s == "memcpy") { n.op = Op::MemCpy; n.a = arg(0); n.b = arg(1); n.c = arg(2); n.flags = 8; }
						else if (n.s == "memmove") { n.op = Op::MemMove; n.a = arg(0); n.b = arg(1); n.c = arg(2); n.flags = 8; }
						else if (n.s == "memset") { n.op = Op::MemSet; n.a = arg(0); n.b = arg(1); n.c = arg(2); n.flags = 8; }
						if (auto* iv = dyn_cast<InvokeInst>(&I)) { n.flags |= 16; n.exz.push_back(bid[iv->getNormalDest()]); }
						break;
					}
					default: n.s = cf->getName().str();
					}
					break;
				}
				default: n.s = I.getOpcodeName(); break;
				}
				if (n.op == Op::Unsupported && n.s.empty()) n.s = I.getOpcodeName();
				bl.ins.push_back(std::move(n));
			}
		}
		fns[fi->name] = std::move(fi);
	}
};
