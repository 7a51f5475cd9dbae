// irdump: LLVM bitcode -> JSON, for the rules in /verif/sa.
//
// Reads every module given on the command line, runs mem2reg (so that locals
// become SSA values) and prints one JSON document with the functions of all
// modules (a static inline function which appears in many modules is printed
// once), the struct layouts and enums of the debug info and the constant
// initializers of globals.
#include <llvm/AsmParser/Parser.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>

using namespace llvm;
typedef json::Object JO;
typedef json::Array JA;

static JO functions, structs, enums, globals, declares;
static const DataLayout *DL;
static std::string cur_file;

// the compiler names files from the directory it runs in
template <class T> static std::string file_of(T c)
{
	auto f = c->getFilename().str();
	if (f.empty() || f[0] == '/') return f;
	auto d = c->getDirectory().str();
	return d.empty() ? f : d + "/" + f;
}

static std::string di_type_name(const DIType *t, int depth = 0)
{
	if (!t) return "void";
	if (depth > 12) return "?";
	if (auto d = dyn_cast<DIDerivedType>(t)) {
		switch (d->getTag()) {
		case dwarf::DW_TAG_pointer_type:
			return di_type_name(d->getBaseType(), depth + 1) + "*";
		case dwarf::DW_TAG_const_type:
		case dwarf::DW_TAG_volatile_type:
		case dwarf::DW_TAG_restrict_type:
			return di_type_name(d->getBaseType(), depth + 1);
		case dwarf::DW_TAG_typedef:
			return d->getName().str();
		default:
			return d->getName().str();
		}
	}
	if (auto c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() == dwarf::DW_TAG_array_type) {
			std::string n = di_type_name(c->getBaseType(), depth + 1) + "[";
			for (auto e : c->getElements())
				if (auto s = dyn_cast<DISubrange>(e))
					if (auto ci = dyn_cast_if_present<ConstantInt *>(s->getCount()))
						n += std::to_string(ci->getSExtValue());
			return n + "]";
		}
		if (c->getName().empty())
			return "anon@" + file_of(c) + ":" + std::to_string(c->getLine());
		return c->getName().str();
	}
	if (isa<DISubroutineType>(t)) return "fn";
	return t->getName().str();
}

static const DIType *strip(const DIType *t)
{
	while (auto d = dyn_cast_or_null<DIDerivedType>(t)) {
		auto tag = d->getTag();
		if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type ||
		    tag == dwarf::DW_TAG_volatile_type)
			t = d->getBaseType();
		else
			break;
	}
	return t;
}

static uint64_t di_size(const DIType *t)
{
	t = strip(t);
	return t ? t->getSizeInBits() / 8 : 0;
}

static bool di_unsigned(const DIType *t)
{
	t = strip(t);
	if (auto b = dyn_cast_or_null<DIBasicType>(t))
		return b->getEncoding() == dwarf::DW_ATE_unsigned ||
		       b->getEncoding() == dwarf::DW_ATE_unsigned_char ||
		       b->getEncoding() == dwarf::DW_ATE_boolean;
	return false;
}

static void dump_composite(const DICompositeType *c, StringRef alias)
{
	std::string name = alias.empty() ? c->getName().str() : alias.str();
	if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
		if (name.empty())
			name = "anon@" + file_of(c) + ":" + std::to_string(c->getLine());
		if (enums.get(name)) return;
		JA a;
		for (auto e : c->getElements())
			if (auto en = dyn_cast<DIEnumerator>(e))
				a.push_back(JA{en->getName().str(), en->getValue().getSExtValue()});
		enums[name] = JO{{"values", std::move(a)}, {"file", file_of(c)}, {"line", c->getLine()}};
		return;
	}
	if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type)
		return;
	if (c->isForwardDecl() || name.empty()) return;
	if (structs.get(name)) return;
	JA a;
	for (auto e : c->getElements())
		if (auto m = dyn_cast<DIDerivedType>(e))
			if (m->getTag() == dwarf::DW_TAG_member)
				a.push_back(JO{{"name", m->getName().str()},
				               {"off", (int64_t)(m->getOffsetInBits() / 8)},
				               {"size", (int64_t)(m->getSizeInBits() / 8)},
				               {"bit", m->isBitField()},
				               {"uns", di_unsigned(m->getBaseType())},
				               {"type", di_type_name(m->getBaseType())}});
	structs[name] = JO{{"fields", std::move(a)}, {"size", (int64_t)(c->getSizeInBits() / 8)},
	                   {"file", file_of(c)}, {"line", c->getLine()}};
}

static std::string struct_name(StructType *st)
{
	if (!st->hasName()) return "";
	auto n = st->getName();
	if (n.starts_with("struct.")) n = n.drop_front(7);
	else if (n.starts_with("union.")) n = n.drop_front(6);
	// llvm uniquing suffix, as in struct.Foo.12
	auto p = n.rfind('.');
	if (p != StringRef::npos && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos)
		n = n.substr(0, p);
	return n.str();
}

static std::string fn_key(const Function *f)
{
	// internal functions defined in a .c file may have the same name
	// in several files
	if (f->hasLocalLinkage())
		if (auto sp = f->getSubprogram()) {
			auto fn = sp->getFilename();
			if (fn.ends_with(".c")) {
				auto s = fn.rfind('/');
				return f->getName().str() + "@" + (s == StringRef::npos ? fn : fn.substr(s + 1)).str();
			}
		}
	return f->getName().str();
}

static std::string glob_key(const GlobalVariable *g)
{
	if (g->hasLocalLinkage()) {
		auto s = cur_file.rfind('/');
		return g->getName().str() + "@" + (s == std::string::npos ? cur_file : cur_file.substr(s + 1));
	}
	return g->getName().str();
}

typedef std::map<const Value *, int> Ids;

// a constant-offset path: list of ["f", struct, index] / ["e", index]
static JA gep_path(const GEPOperator *g, const Ids *ids, bool *exact);
static json::Value operand(const Value *v, const Ids *ids);

static json::Value operand(const Value *v, const Ids *ids)
{
	if (auto ci = dyn_cast<ConstantInt>(v)) {
		if (ci->getBitWidth() <= 64)
			return JA{"i", ci->getSExtValue(), ci->getBitWidth()};
		return JA{"big"};
	}
	if (auto cf = dyn_cast<ConstantFP>(v)) {
		SmallString<16> s;
		cf->getValueAPF().toString(s);
		return JA{"fp", s.str().str()};
	}
	if (isa<ConstantPointerNull>(v)) return JA{"null"};
	if (isa<UndefValue>(v)) return JA{"undef"};
	if (auto f = dyn_cast<Function>(v)) return JA{"f", fn_key(f)};
	if (auto g = dyn_cast<GlobalVariable>(v)) {
		if (g->hasInitializer() && g->isConstant())
			if (auto cda = dyn_cast<ConstantDataArray>(g->getInitializer()))
				if (cda->isString()) {
					auto s = cda->getAsString();
					if (s.size() && s.back() == 0) s = s.drop_back();
					return JA{"s", json::fixUTF8(s)};
				}
		if (g->hasInitializer() && g->isConstant() && g->getName().starts_with(".str"))
			return JA{"s", ""};
		return JA{"g", glob_key(g)};
	}
	if (auto ce = dyn_cast<ConstantExpr>(v)) {
		JA ops;
		for (auto &o : ce->operands()) ops.push_back(operand(o, ids));
		if (ce->getOpcode() == Instruction::IntToPtr)
			if (auto c = dyn_cast<ConstantInt>(ce->getOperand(0)))
				return JA{"i", c->getSExtValue(), c->getBitWidth()};
		JO o{{"op", ce->getOpcodeName()}, {"ops", std::move(ops)}};
		if (auto ge = dyn_cast<GEPOperator>(ce)) {
			bool ex;
			o["path"] = gep_path(ge, ids, &ex);
		}
		return JA{"ce", std::move(o)};
	}
	if (auto a = dyn_cast<Argument>(v)) return JA{"a", a->getArgNo()};
	if (isa<BasicBlock>(v)) return JA{"b", 0};
	if (isa<MetadataAsValue>(v)) return JA{"md"};
	if (isa<InlineAsm>(v)) return JA{"asm"};
	if (ids) {
		auto it = ids->find(v);
		if (it != ids->end()) return JA{"v", it->second};
	}
	return JA{"other"};
}

static JA gep_path(const GEPOperator *g, const Ids *ids, bool *exact)
{
	JA path;
	*exact = true;
	Type *t = g->getSourceElementType();
	unsigned n = 0;
	for (auto it = g->idx_begin(); it != g->idx_end(); ++it, ++n) {
		const Value *idx = *it;
		if (n == 0) {
			if (auto ci = dyn_cast<ConstantInt>(idx); ci && ci->isZero() && g->getNumIndices() > 1)
				continue;
			std::string tn;
			raw_string_ostream os(tn);
			if (auto st = dyn_cast<StructType>(t)) os << struct_name(st); else t->print(os);
			path.push_back(JA{"e", operand(idx, ids), tn, (int64_t)DL->getTypeAllocSize(t)});
			continue;
		}
		if (auto st = dyn_cast<StructType>(t)) {
			unsigned k = cast<ConstantInt>(idx)->getZExtValue();
			path.push_back(JA{"f", struct_name(st), k, (int64_t)DL->getStructLayout(st)->getElementOffset(k)});
			t = st->getElementType(k);
		} else if (auto at = dyn_cast<ArrayType>(t)) {
			path.push_back(JA{"x", operand(idx, ids)});
			t = at->getElementType();
		} else
			break;
	}
	return path;
}

static json::Value init_value(const Constant *c, int depth = 0)
{
	if (depth > 8) return nullptr;
	if (auto cs = dyn_cast<ConstantStruct>(c)) {
		JA a;
		for (auto &o : cs->operands()) a.push_back(init_value(cast<Constant>(o), depth + 1));
		return JO{{"struct", struct_name(cs->getType())}, {"v", std::move(a)}};
	}
	if (auto ca = dyn_cast<ConstantArray>(c)) {
		JA a;
		for (auto &o : ca->operands()) a.push_back(init_value(cast<Constant>(o), depth + 1));
		return JO{{"array", std::move(a)}};
	}
	if (auto cda = dyn_cast<ConstantDataArray>(c)) {
		if (cda->isString()) {
			auto s = cda->getAsString();
			while (s.size() && s.back() == 0) s = s.drop_back();
			return JA{"s", json::fixUTF8(s)};
		}
		JA a;
		for (unsigned i = 0; i < cda->getNumElements(); i++)
			a.push_back(init_value(cda->getElementAsConstant(i), depth + 1));
		return JO{{"array", std::move(a)}};
	}
	if (isa<ConstantAggregateZero>(c)) {
		std::string n;
		if (auto st = dyn_cast<StructType>(c->getType())) n = struct_name(st);
		return JO{{"zero", n}};
	}
	return operand(c, nullptr);
}

static std::string type_str(Type *t)
{
	std::string s;
	raw_string_ostream os(s);
	if (auto st = dyn_cast<StructType>(t); st && st->hasName())
		os << "%" << struct_name(st);
	else if (auto at = dyn_cast<ArrayType>(t))
		os << "[" << at->getNumElements() << " x " << type_str(at->getElementType()) << "]";
	else
		t->print(os, false, true);
	return s;
}

static void dump_function(Function &f)
{
	std::string key = fn_key(&f);
	auto sp = f.getSubprogram();
	if (functions.get(key)) return;
	Ids ids;
	int n = 0;
	std::map<const BasicBlock *, int> bids;
	int nb = 0;
	for (auto &b : f) {
		bids[&b] = nb++;
		for (auto &i : b)
			if (!isa<DbgInfoIntrinsic>(i)) ids[&i] = n++;
	}
	JO fo;
	fo["name"] = f.getName().str();
	fo["file"] = sp ? file_of(sp) : "";
	fo["dir"] = sp && sp->getFile() ? sp->getFile()->getDirectory().str() : "";
	fo["line"] = sp ? (int)sp->getLine() : 0;
	fo["local"] = f.hasLocalLinkage();
	fo["noreturn"] = f.doesNotReturn();
	fo["vararg"] = f.isVarArg();
	fo["ret"] = type_str(f.getReturnType());
	JA args;
	std::map<unsigned, std::pair<std::string, std::string>> argdi;
	std::map<unsigned, bool> arguns;
	if (sp) {
		for (auto rn : sp->getRetainedNodes())
			if (auto lv = dyn_cast<DILocalVariable>(rn))
				if (lv->getArg())
					argdi[lv->getArg() - 1] = {lv->getName().str(), di_type_name(lv->getType())};
		if (auto st = sp->getType()) {
			auto ta = st->getTypeArray();
			if (ta.size()) fo["ditype"] = di_type_name(ta[0]);
			if (ta.size()) fo["diuns"] = di_unsigned(ta[0]);
		}
	}
	for (auto &b : f)
		for (auto &i : b) {
			if (auto dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
				auto lv = dv->getVariable();
				if (lv->getArg() && !dv->getDebugLoc()->getInlinedAt()) {
					argdi[lv->getArg() - 1] = {lv->getName().str(), di_type_name(lv->getType())};
					arguns[lv->getArg() - 1] = di_unsigned(lv->getType());
				}
			}
		}
	for (auto &a : f.args())
		args.push_back(JA{argdi.count(a.getArgNo()) ? argdi[a.getArgNo()].first : "",
		                  argdi.count(a.getArgNo()) ? argdi[a.getArgNo()].second : "",
		                  type_str(a.getType()),
		                  arguns.count(a.getArgNo()) ? arguns[a.getArgNo()] : false});
	fo["args"] = std::move(args);
	// names of locals
	JO names;
	for (auto &b : f)
		for (auto &i : b)
			if (auto dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
				auto v = dv->getVariableLocationOp(0);
				if (!v) continue;
				auto it = ids.find(v);
				if (it == ids.end()) continue;
				auto k = std::to_string(it->second);
				if (!names.get(k))
					names[k] = JA{dv->getVariable()->getName().str(),
					              di_type_name(dv->getVariable()->getType()),
					              (int64_t)di_size(dv->getVariable()->getType()),
					              di_unsigned(dv->getVariable()->getType())};
			}
	fo["names"] = std::move(names);
	JA blocks;
	for (auto &b : f) {
		JA insts;
		for (auto &i : b) {
			if (isa<DbgInfoIntrinsic>(i)) continue;
			JO o;
			o["id"] = ids[&i];
			o["op"] = i.getOpcodeName();
			if (!i.getType()->isVoidTy()) o["t"] = type_str(i.getType());
			JA ops;
			if (auto ci = dyn_cast<CallBase>(&i)) {
				for (auto &a : ci->args()) ops.push_back(operand(a, &ids));
				o["callee"] = operand(ci->getCalledOperand(), &ids);
				if (ci->doesNotReturn()) o["noreturn"] = true;
			} else if (auto ph = dyn_cast<PHINode>(&i)) {
				JA inc;
				for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) {
					ops.push_back(operand(ph->getIncomingValue(k), &ids));
					inc.push_back(bids[ph->getIncomingBlock(k)]);
				}
				o["inc"] = std::move(inc);
			} else if (auto br = dyn_cast<BranchInst>(&i)) {
				if (br->isConditional()) ops.push_back(operand(br->getCondition(), &ids));
				JA s;
				for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bids[br->getSuccessor(k)]);
				o["succ"] = std::move(s);
			} else if (auto sw = dyn_cast<SwitchInst>(&i)) {
				ops.push_back(operand(sw->getCondition(), &ids));
				JA cs;
				for (auto &c : sw->cases())
					cs.push_back(JA{c.getCaseValue()->getSExtValue(), bids[c.getCaseSuccessor()]});
				o["cases"] = std::move(cs);
				o["default"] = bids[sw->getDefaultDest()];
				JA s;
				for (auto x : successors(&i)) s.push_back(bids[x]);
				o["succ"] = std::move(s);
			} else {
				for (auto &p : i.operands()) ops.push_back(operand(p, &ids));
			}
			if (auto ic = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str();
			if (auto rm = dyn_cast<AtomicRMWInst>(&i)) o["pred"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
			if (auto ge = dyn_cast<GetElementPtrInst>(&i)) {
				bool ex;
				o["path"] = gep_path(cast<GEPOperator>(ge), &ids, &ex);
			}
			if (auto al = dyn_cast<AllocaInst>(&i)) o["at"] = type_str(al->getAllocatedType());
			if (auto st = dyn_cast<StoreInst>(&i)) o["st"] = type_str(st->getValueOperand()->getType());
			if (isa<TruncInst>(i) || isa<SExtInst>(i) || isa<ZExtInst>(i))
				o["from"] = type_str(i.getOperand(0)->getType());
			o["o"] = std::move(ops);
			if (auto &dl = i.getDebugLoc()) {
				o["l"] = (int)dl.getLine();
				if (auto sc = dyn_cast_or_null<DIScope>(dl.getScope()))
					if (sp && sc->getFilename() != sp->getFilename()) o["lf"] = file_of(sc);
			}
			insts.push_back(std::move(o));
		}
		blocks.push_back(std::move(insts));
	}
	fo["blocks"] = std::move(blocks);
	functions[key] = std::move(fo);
}

// The inliner drops address computations which add nothing, and with them the
// name of the first field of a structure: hide them from it.
struct Gep0 {
	Type *type;
	std::vector<Value *> idx;
};
static std::map<Function *, Gep0> gep0;

static void hide_gep0(Function &f)
{
	std::vector<GetElementPtrInst *> gs;
	for (auto &b : f)
		for (auto &i : b)
			if (auto g = dyn_cast<GetElementPtrInst>(&i))
				if (g->hasAllZeroIndices() && g->getNumIndices() > 1) gs.push_back(g);
	for (auto g : gs) {
		auto d = Function::Create(FunctionType::get(g->getType(), {g->getPointerOperandType()}, false),
		                          GlobalValue::ExternalLinkage, "__sa_gep0", f.getParent());
		gep0[d] = Gep0{g->getSourceElementType(), std::vector<Value *>(g->idx_begin(), g->idx_end())};
		auto c = CallInst::Create(d, {g->getPointerOperand()}, "", g);
		c->setDebugLoc(g->getDebugLoc());
		g->replaceAllUsesWith(c);
		g->eraseFromParent();
	}
}

static void show_gep0()
{
	for (auto &it : gep0) {
		std::vector<CallInst *> cs;
		for (auto u : it.first->users())
			if (auto c = dyn_cast<CallInst>(u)) cs.push_back(c);
		for (auto c : cs) {
			auto g = GetElementPtrInst::Create(it.second.type, c->getArgOperand(0), it.second.idx, "", c);
			g->setDebugLoc(c->getDebugLoc());
			c->replaceAllUsesWith(g);
			c->eraseFromParent();
		}
		it.first->eraseFromParent();
	}
	gep0.clear();
}

// A helper which is not one of the functions the rules know (argv[1]) is
// analysed as part of its callers, wherever it was extracted from.
static void inline_helpers(Module &m, std::set<std::string> &known)
{
	if (known.empty()) return;
	std::set<Function *> changed;
	for (auto &f : m)
		if (!f.isDeclaration() && f.hasLocalLinkage() && !known.count(f.getName().str())) hide_gep0(f);
	for (int round = 0; round < 50; round++) {
		bool again = false;
		for (auto &f : m) {
			if (f.isDeclaration() || !f.hasLocalLinkage() || known.count(f.getName().str())) continue;
			bool self = false;
			std::vector<CallBase *> sites;
			for (auto u : f.users()) {
				auto c = dyn_cast<CallBase>(u);
				if (!c || c->getCalledOperand() != &f) continue;
				if (c->getFunction() == &f) self = true;
				sites.push_back(c);
			}
			if (self) continue;
			for (auto c : sites) {
				InlineFunctionInfo ifi;
				changed.insert(c->getFunction());
				if (InlineFunction(*c, ifi).isSuccess()) again = true;
			}
		}
		if (!again) break;
	}
	show_gep0();
	// what follows a helper which never returns
	for (auto f : changed) removeUnreachableBlocks(*f);
	std::vector<Function *> dead;
	for (auto &f : m)
		if (!f.isDeclaration() && f.hasLocalLinkage() && !known.count(f.getName().str()) && f.use_empty())
			dead.push_back(&f);
	for (auto f : dead) f->eraseFromParent();
}

int main(int argc, char **argv)
{
	std::set<std::string> known;
	if (auto b = MemoryBuffer::getFile(argv[1])) {
		SmallVector<StringRef, 0> lines;
		(*b)->getBuffer().split(lines, '\n', -1, false);
		for (auto l : lines) known.insert(l.str());
	}
	for (int i = 2; i < argc; i++) {
		LLVMContext ctx;
		SMDiagnostic err;
		auto m = parseIRFile(argv[i], err, ctx);
		if (!m) {
			err.print(argv[0], errs());
			return 2;
		}
		cur_file = m->getSourceFileName();
		inline_helpers(*m, known);
		LoopAnalysisManager lam;
		FunctionAnalysisManager fam;
		CGSCCAnalysisManager cam;
		ModuleAnalysisManager mam;
		PassBuilder pb;
		pb.registerModuleAnalyses(mam);
		pb.registerCGSCCAnalyses(cam);
		pb.registerFunctionAnalyses(fam);
		pb.registerLoopAnalyses(lam);
		pb.crossRegisterProxies(lam, fam, cam, mam);
		ModulePassManager mpm;
		if (auto e = pb.parsePassPipeline(mpm, "function(mem2reg)")) {
			errs() << "pipeline: " << toString(std::move(e)) << "\n";
			return 2;
		}
		mpm.run(*m, mam);
		DL = &m->getDataLayout();
		DebugInfoFinder df;
		df.processModule(*m);
		for (auto t : df.types()) {
			if (auto c = dyn_cast<DICompositeType>(t)) dump_composite(c, "");
			if (auto d = dyn_cast<DIDerivedType>(t))
				if (d->getTag() == dwarf::DW_TAG_typedef)
					if (auto c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
						if (c->getName().empty()) dump_composite(c, d->getName());
		}
		for (auto cu : m->debug_compile_units())
			for (auto e : cu->getEnumTypes()) dump_composite(e, "");
		for (auto &g : m->globals()) {
			if (!g.hasInitializer()) continue;
			if (g.getName().starts_with(".str")) continue;
			auto k = glob_key(&g);
			if (globals.get(k)) continue;
			globals[k] = JO{{"init", init_value(g.getInitializer())}, {"const", g.isConstant()},
			                {"type", type_str(g.getValueType())}};
		}
		for (auto &f : *m) {
			if (f.isDeclaration()) {
				if (!f.isIntrinsic() && !declares.get(f.getName()))
					declares[f.getName()] = JO{{"noreturn", f.doesNotReturn()}};
				continue;
			}
			dump_function(f);
		}
	}
	JO out;
	out["functions"] = std::move(functions);
	out["structs"] = std::move(structs);
	out["enums"] = std::move(enums);
	out["globals"] = std::move(globals);
	out["declares"] = std::move(declares);
	outs() << json::Value(std::move(out)) << "\n";
	return 0;
}
