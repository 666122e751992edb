// Effects of the code that is reachable from the entry points: writes to objects of static or thread storage, atomic
// operations, floating-point arithmetic, exceptions, and calls of outside functions that have effects.
#pragma once
#include "ir.h"
#include <llvm/IR/InstIterator.h>
#include <regex>
#include <deque>
#include <set>

struct Effects {
	llvm::Module& M; std::set<const llvm::Function*> reach, ctor; std::set<std::string> seen; std::vector<std::array<std::string, 3>> out; std::set<std::string> notes; long nins = 0, nstores = 0, ncalls = 0, nglob = 0, nfp = 0;
	explicit Effects(llvm::Module& m) : M(m) {}
	static std::string where(const llvm::Instruction& I) {
		std::string s; if (auto dl = I.getDebugLoc()) { auto* sc = llvm::cast<llvm::DIScope>(dl.getScope()); std::string f = sc->getFilename().str(); size_t k = f.rfind('/'); if (k != std::string::npos) f = f.substr(k + 1); s = f + ":" + std::to_string(dl.getLine()); if (auto* sp = llvm::cast<llvm::DILocalScope>(dl.getScope())->getSubprogram()) s += " in " + sp->getName().str(); }
		else s = "in " + I.getFunction()->getName().str();
		return s;
	}
	void bad(const char* rule, const std::string& what, const llvm::Instruction& I) { std::string w = where(I); if (seen.insert(std::string(rule) + what + w).second) out.push_back({ rule, what, w }); }
	void close(std::set<const llvm::Function*>& S, std::vector<const llvm::Function*> todo) {
		while (!todo.empty()) { auto* f = todo.back(); todo.pop_back(); if (f->isDeclaration() || f->getName() == "__clang_call_terminate" || !S.insert(f).second) continue; for (auto& I : llvm::instructions(*f)) if (auto* c = llvm::dyn_cast<llvm::CallBase>(&I)) if (auto* g = llvm::dyn_cast<llvm::Function>(c->getCalledOperand()->stripPointerCasts())) todo.push_back(g); }
	}
	// everything that is done with an address derived from g
	struct Uses { std::vector<const llvm::Instruction*> writes, reads, atomics; bool escapes = false; };
	Uses follow(const llvm::GlobalVariable* g) {
		using namespace llvm; Uses u; std::set<const Value*> done; std::vector<const Value*> todo{ g };
		while (!todo.empty()) {
			const Value* v = todo.back(); todo.pop_back(); if (!done.insert(v).second) continue;
			for (auto& U : v->uses()) {
				const User* x = U.getUser();
				if (isa<ConstantExpr>(x)) { todo.push_back(x); continue; }
				if (isa<Constant>(x)) { u.escapes = true; continue; }
				auto* I = dyn_cast<Instruction>(x); if (!I) continue;
				if (isa<GetElementPtrInst>(I) || isa<BitCastInst>(I) || isa<AddrSpaceCastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) todo.push_back(I);
				else if (auto* s = dyn_cast<StoreInst>(I)) { if (s->getPointerOperand() == v) { u.writes.push_back(I); if (s->isAtomic()) u.atomics.push_back(I); } else u.escapes = true; }
				else if (auto* l = dyn_cast<LoadInst>(I)) { u.reads.push_back(I); if (l->isAtomic()) u.atomics.push_back(I); }
				else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { u.writes.push_back(I); u.atomics.push_back(I); }
				else if (auto* c = dyn_cast<CallBase>(I)) {
					if (auto* ii = dyn_cast<IntrinsicInst>(c)) {
						if (auto* mi = dyn_cast<MemIntrinsic>(ii)) { if (mi->getRawDest() == v) u.writes.push_back(I); else u.reads.push_back(I); }
						else if (ii->getIntrinsicID() == Intrinsic::threadlocal_address || ii->getIntrinsicID() == Intrinsic::launder_invariant_group || ii->getIntrinsicID() == Intrinsic::ptrmask) todo.push_back(I);
						continue;
					}
					auto* f = c->getCalledFunction(); if (!f) { u.escapes = true; continue; }
					unsigned k = U.getOperandNo(); if (!f->isDeclaration() && c->isArgOperand(&U) && k < f->arg_size()) todo.push_back(f->getArg(k));
					else { std::string n = f->getName().str(); if ((n == "memcpy" || n == "memmove" || n == "memset" || n == "strcpy" || n == "strncpy") && k == 0) u.writes.push_back(I); else u.escapes = true; }
				}
				else if (auto* r = dyn_cast<ReturnInst>(I)) { for (auto* w : r->getFunction()->users()) if (auto* c = dyn_cast<CallBase>(w)) if (c->getCalledFunction() == r->getFunction()) todo.push_back(c); }
				else if (isa<ICmpInst>(I)) {}
				else u.escapes = true;
			}
		}
		return u;
	}
	void run(const std::regex& entries) {
		using namespace llvm; std::vector<const Function*> e, c;
		for (auto& f : M) if (!f.isDeclaration() && std::regex_match(f.getName().str(), entries)) e.push_back(&f);
		nent = (long)e.size(); close(reach, e);
		if (auto* g = M.getGlobalVariable("llvm.global_ctors")) if (g->hasInitializer()) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : a->operands()) if (auto* s = dyn_cast<ConstantStruct>(o)) if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) c.push_back(f);
		close(ctor, c);
		for (auto& g : M.globals()) {
			if (g.isConstant() || g.getName().starts_with("llvm.")) continue;
			Uses u = follow(&g); auto in = [&](const Instruction* i) { return reach.count(i->getFunction()) != 0; }; std::string n = g.getName().str(), kind = g.isThreadLocal() ? "an object of thread storage" : "an object of static storage"; bool r = false, w = false;
			for (auto* i : u.reads) r |= in(i); for (auto* i : u.writes) w |= in(i); if (r || w) nglob++;
			if (n.rfind("_ZGV", 0) == 0) { for (auto* i : u.writes) if (in(i)) bad("state", "a static object is initialised on first use", *i); continue; }
			for (auto* i : u.writes) if (in(i)) bad("state", "writes " + n + ", " + kind, *i);
			if (r && !w) for (auto* i : u.writes) if (!ctor.count(i->getFunction())) { for (auto* q : u.reads) if (in(q)) { bad("state", "reads " + n + ", which " + i->getFunction()->getName().str() + " changes", *q); break; } break; }
			if (u.escapes && (r || w)) notes.insert("the address of " + n + " is stored or handed on");
		}
		static const std::regex pure("memcpy|memmove|memset|memcmp|strlen|bcmp|memchr|__assert_fail|__assert|_assert|abort|_ZSt9terminatev|__clang_call_terminate|__gxx_personality_v0|__stack_chk_fail|__udivdi3|__umoddi3|__divdi3|__moddi3|__udivti3|__umodti3|__muldi3|__multi3|__ctzdi2|_ZSt21__glibcxx_assert_failPKciS0_S0_|_Unwind_Resume|_ZSt[0-9]+__throw_.*");
		static const std::regex alloc("_Znwm|_Znwj|_Znam|_Znaj|_Znwm.*|_Znwj.*|_Znam.*|_Znaj.*|_ZdlPv.*|_ZdaPv.*|malloc|calloc|realloc|free|aligned_alloc|posix_memalign|strdup|_ZNSt7__cxx1112basic_string.*|_ZNSs.*");
		static const std::regex lock("pthread_.*|__cxa_guard_.*|mtx_.*|sem_.*|futex|_ZNSt5mutex.*|_ZNSt6thread.*|__gthread.*|sched_yield|call_once|_ZSt9call_once.*|__emutls_get_address|__cxa_thread_atexit|__cxa_atexit|__tls_init|_ZTW.*|_ZTH.*");
		static const std::regex thr("__cxa_throw|__cxa_rethrow|__cxa_allocate_exception|__cxa_begin_catch|_Unwind_RaiseException|longjmp|siglongjmp|_setjmp|setjmp");
		static const std::regex env("fe(get|set|clear|raise|test|hold|update)[a-z]*|__fe.*|setlocale|localeconv|uselocale|getenv|secure_getenv|setenv|time|clock|clock_gettime|gettimeofday|rand|srand|random|rand_r|drand48|printf|fprintf|sprintf|snprintf|vprintf|vsnprintf|vfprintf|puts|fputs|putchar|fputc|fwrite|write|read|open|fopen|_ZNSt8ios_base.*|_ZNSo.*|_ZNSi.*|_ZStlsI.*|__errno_location|errno|strto.*|strtod|atof|system|_ZNSt6chrono.*|_ZNSt13random_device.*");
		for (auto* f : reach) for (auto& I : instructions(*f)) {
			if (isa<DbgInfoIntrinsic>(&I)) continue; nins++;
			switch (I.getOpcode()) {
			case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: bad("floating-point", std::string("floating-point arithmetic (") + I.getOpcodeName() + ")", I); break;
			case Instruction::FCmp: if (cast<FCmpInst>(&I)->getPredicate() != FCmpInst::FCMP_TRUE && cast<FCmpInst>(&I)->getPredicate() != FCmpInst::FCMP_FALSE) bad("floating-point", "floating-point comparison", I); break;
			case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPTrunc: case Instruction::FPExt: bad("floating-point", std::string("floating-point conversion (") + I.getOpcodeName() + ")", I); break;
			case Instruction::Fence: bad("state", "a memory fence", I); break;
			case Instruction::Store: nstores++; break;
			case Instruction::AtomicRMW: case Instruction::AtomicCmpXchg: bad("state", "an atomic operation", I); break;
			default: break;
			}
			auto* c = dyn_cast<CallBase>(&I); if (!c) continue;
			if (c->isInlineAsm()) { notes.insert("inline assembly at " + where(I)); continue; }
			auto* g = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()); if (!g) { notes.insert("indirect call at " + where(I)); continue; }
			ncalls++; std::string n = g->getName().str();
			if (auto* ii = dyn_cast<IntrinsicInst>(c)) {
				bool fp = I.getType()->isFPOrFPVectorTy(); for (auto& a : c->args()) fp |= a->getType()->isFPOrFPVectorTy(); auto id = ii->getIntrinsicID();
				if (fp && id != Intrinsic::fabs && id != Intrinsic::copysign && id != Intrinsic::is_fpclass && id != Intrinsic::lifetime_start && id != Intrinsic::lifetime_end) bad("floating-point", "floating-point operation " + n, I);
				if (id == Intrinsic::get_rounding || n.find("fpenv") != std::string::npos || n.find("fpmode") != std::string::npos || n.find("readcyclecounter") != std::string::npos || n.find("set.rounding") != std::string::npos || n.find("stmxcsr") != std::string::npos || n.find("ldmxcsr") != std::string::npos) bad("environment", "depends on or changes the environment (" + n + ")", I);
				continue;
			}
			if (!g->isDeclaration() || n == "__clang_call_terminate") continue;
			if (std::regex_match(n, pure)) continue;
			if (std::regex_match(n, alloc)) bad("allocation", "allocates or frees memory (" + n + ")", I);
			else if (std::regex_match(n, lock)) bad("lock", "takes a lock or uses thread state (" + n + ")", I);
			else if (std::regex_match(n, thr)) bad("exception", "throws or jumps (" + n + ")", I);
			else if (std::regex_match(n, env)) bad("environment", "depends on or changes the environment (" + n + ")", I);
			else { bool fp = g->getReturnType()->isFPOrFPVectorTy(); for (auto& a : g->args()) fp |= a.getType()->isFPOrFPVectorTy(); if (fp) bad("floating-point", "calls the floating-point function " + n, I); else notes.insert("outside function " + n + " called at " + where(I)); }
		}
	}
	long nent = 0;
};
