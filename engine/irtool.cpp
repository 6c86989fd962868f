// irtool: link LLVM bitcode, inline project code into chosen root functions, canonicalise,
// and dump the resulting SSA as JSON for the dataflow engine (vg.py).
//
//   irtool OUT.json POLICY.json a.bc b.bc ...
//
// POLICY: {"roots": [regex on demangled name], "inline": [regex], "keep": [regex],
//          "passes": "<new-PM pipeline>"}
// keep wins over inline; anything that matches neither is kept as a call.
#include <fstream>
#include <regex>
#include <set>
#include <string>

#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;

static std::vector<std::regex> compileList(const json::Object& o, StringRef key)
{
    std::vector<std::regex> out;
    if (const json::Array* a = o.getArray(key))
        for (const json::Value& v : *a)
            out.emplace_back(v.getAsString()->str(), std::regex::ECMAScript | std::regex::optimize);
    return out;
}

static bool matches(const std::vector<std::regex>& rs, const std::string& s)
{
    for (const auto& r : rs)
        if (std::regex_search(s, r))
            return true;
    return false;
}

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }

class Dumper
{
 public:
    Dumper(Module& m, json::OStream& j) : M(m), DL(m.getDataLayout()), J(j) {}

    std::string ty(Type* t)
    {
        std::string s;
        raw_string_ostream os(s);
        t->print(os, false, true);
        return os.str();
    }
    json::Value intVal(const APInt& v)
    {
        SmallString<40> s;
        v.toString(s, 10, true);
        return json::Object{{"k", "i"}, {"v", std::string(s.str())}, {"w", (int64_t)v.getBitWidth()}};
    }
    json::Value fpVal(const APFloat& f)
    {
        bool lose;
        APFloat d = f;
        d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
        double x = d.convertToDouble();
        char buf[64];
        snprintf(buf, sizeof buf, "%a", x);
        return json::Object{{"k", "f"}, {"v", std::string(buf)}};
    }
    json::Value constant(Constant* c)
    {
        if (auto* ci = dyn_cast<ConstantInt>(c))
            return intVal(ci->getValue());
        if (auto* cf = dyn_cast<ConstantFP>(c))
            return fpVal(cf->getValueAPF());
        if (isa<ConstantPointerNull>(c))
            return json::Object{{"k", "n"}};
        if (isa<UndefValue>(c))
            return json::Object{{"k", "u"}, {"t", ty(c->getType())}};
        if (auto* ga = dyn_cast<GlobalAlias>(c))
            return constant(ga->getAliasee());
        if (auto* f = dyn_cast<Function>(c))
            return json::Object{{"k", "fn"}, {"v", std::string(f->getName())}, {"d", dem(f->getName())}};
        if (auto* g = dyn_cast<GlobalVariable>(c))
        {
            usedGlobals.insert(g);
            return json::Object{{"k", "g"}, {"v", std::string(g->getName())}, {"o", 0}};
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c))
        {
            if (ce->getOpcode() == Instruction::GetElementPtr)
            {
                APInt off(64, 0);
                if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off))
                {
                    json::Value base = constant(cast<Constant>(ce->getOperand(0)));
                    if (auto* o = base.getAsObject())
                        if (auto k = o->getString("k"); k && *k == "g")
                        {
                            int64_t prev = o->getInteger("o").value_or(0);
                            (*o)["o"] = prev + off.getSExtValue();
                            return base;
                        }
                }
            }
            if (ce->isCast())
            {
                json::Value b = constant(ce->getOperand(0));
                return json::Object{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"t", ty(ce->getType())}, {"a", json::Array{std::move(b)}}};
            }
            json::Array a;
            for (Use& u : ce->operands())
                a.push_back(constant(cast<Constant>(u)));
            return json::Object{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"t", ty(ce->getType())}, {"a", std::move(a)}};
        }
        if (auto* cs = dyn_cast<ConstantAggregateZero>(c))
            return json::Object{{"k", "z"}, {"t", ty(cs->getType())}};
        if (auto* ca = dyn_cast<ConstantAggregate>(c))
        {
            json::Array a;
            for (Use& u : ca->operands())
                a.push_back(constant(cast<Constant>(u)));
            return json::Object{{"k", "agg"}, {"t", ty(c->getType())}, {"a", std::move(a)}};
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c))
        {
            json::Array a;
            for (unsigned i = 0; i < cd->getNumElements(); ++i)
                a.push_back(constant(cd->getElementAsConstant(i)));
            return json::Object{{"k", "agg"}, {"t", ty(c->getType())}, {"a", std::move(a)}};
        }
        return json::Object{{"k", "?"}, {"t", ty(c->getType())}};
    }
    json::Value val(Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v))
            return constant(c);
        if (auto* bb = dyn_cast<BasicBlock>(v))
            return json::Object{{"k", "b"}, {"v", blk[bb]}};
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v))
            return json::Object{{"k", "md"}};
        auto it = ids.find(v);
        if (it == ids.end())
            return json::Object{{"k", "?"}};
        return json::Object{{"k", "v"}, {"v", it->second}};
    }
    void flatten(Constant* c, int64_t off, json::Array& out)
    {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c))
        {
            out.push_back(json::Array{off, (int64_t)DL.getTypeStoreSize(t), json::Object{{"k", "z"}}});
            return;
        }
        if (auto* st = dyn_cast<StructType>(t))
        {
            if (isa<ConstantStruct>(c))
            {
                auto* sl = DL.getStructLayout(st);
                for (unsigned i = 0; i < st->getNumElements(); ++i)
                    flatten(cast<Constant>(c->getOperand(i)), off + sl->getElementOffset(i), out);
                return;
            }
        }
        if (auto* at = dyn_cast<ArrayType>(t))
        {
            int64_t es = DL.getTypeAllocSize(at->getElementType());
            for (uint64_t i = 0; i < at->getNumElements(); ++i)
                if (Constant* e = c->getAggregateElement(i))
                    flatten(e, off + es * i, out);
            return;
        }
        if (isa<UndefValue>(c))
            return;
        out.push_back(json::Array{off, (int64_t)DL.getTypeStoreSize(t), constant(c)});
    }
    void loc(json::Object& o, Instruction& I)
    {
        DILocation* d = I.getDebugLoc().get();
        if (!d)
            return;
        json::Array chain;
        for (; d; d = d->getInlinedAt())
        {
            std::string f = (d->getDirectory().empty() || d->getFilename().starts_with("/"))
                                ? d->getFilename().str()
                                : (d->getDirectory() + "/" + d->getFilename()).str();
            std::string fn;
            if (auto* sp = d->getScope()->getSubprogram())
                fn = (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str();
            chain.push_back(json::Array{f, (int64_t)d->getLine(), fn});
        }
        o["loc"] = std::move(chain);
    }
    void function(Function& F)
    {
        ids.clear();
        blk.clear();
        int64_t n = 0;
        json::Object o;
        o["name"] = F.getName().str();
        o["dem"] = dem(F.getName());
        json::Array args;
        for (Argument& a : F.args())
        {
            ids[&a] = n;
            json::Object ao{{"id", n}, {"name", a.getName().str()}, {"t", ty(a.getType())}};
            if (a.hasStructRetAttr())
                ao["sret"] = true;
            if (a.hasByValAttr())
                ao["byval"] = (int64_t)DL.getTypeAllocSize(a.getParamByValType());
            if (a.hasAttribute(Attribute::Dereferenceable))
                ao["deref"] = (int64_t)a.getDereferenceableBytes();
            args.push_back(std::move(ao));
            ++n;
        }
        o["args"] = std::move(args);
        o["ret"] = ty(F.getReturnType());
        if (auto* sp = F.getSubprogram())
            o["at"] = json::Array{(sp->getDirectory() + "/" + sp->getFilename()).str(), (int64_t)sp->getLine()};
        int64_t b = 0;
        for (BasicBlock& B : F)
            blk[&B] = b++;
        for (Instruction& I : instructions(F))
            ids[&I] = n++;
        json::Array blocks;
        for (BasicBlock& B : F)
        {
            json::Array is;
            for (Instruction& I : B)
            {
                if (isa<DbgInfoIntrinsic>(I))
                    continue;
                json::Object io;
                io["id"] = ids[&I];
                io["op"] = I.getOpcodeName();
                io["t"] = ty(I.getType());
                if (I.getType()->isIntegerTy())
                    io["w"] = (int64_t)I.getType()->getIntegerBitWidth();
                if (I.getType()->isSized())
                    io["sz"] = (int64_t)DL.getTypeStoreSize(I.getType());
                loc(io, I);
                if (auto* g = dyn_cast<GetElementPtrInst>(&I))
                {
                    MapVector<Value*, APInt> var;
                    APInt off(64, 0);
                    if (cast<GEPOperator>(g)->collectOffset(DL, 64, var, off))
                    {
                        io["off"] = off.getSExtValue();
                        json::Array va;
                        for (auto& p : var)
                            va.push_back(json::Array{val(p.first), p.second.getSExtValue()});
                        io["var"] = std::move(va);
                    }
                    io["ops"] = json::Array{val(g->getPointerOperand())};
                    io["et"] = ty(g->getSourceElementType());
                }
                else if (auto* p = dyn_cast<PHINode>(&I))
                {
                    json::Array inc;
                    for (unsigned i = 0; i < p->getNumIncomingValues(); ++i)
                        inc.push_back(json::Array{val(p->getIncomingValue(i)), blk[p->getIncomingBlock(i)]});
                    io["inc"] = std::move(inc);
                }
                else if (auto* a = dyn_cast<AllocaInst>(&I))
                {
                    io["et"] = ty(a->getAllocatedType());
                    auto s = a->getAllocationSize(DL);
                    io["size"] = s ? (int64_t)s->getFixedValue() : (int64_t)-1;
                    io["name"] = a->getName().str();
                }
                else if (auto* c = dyn_cast<CallBase>(&I))
                {
                    json::Array ops;
                    json::Array byval;
                    for (unsigned i = 0; i < c->arg_size(); ++i)
                    {
                        ops.push_back(val(c->getArgOperand(i)));
                        if (c->isByValArgument(i))
                            byval.push_back((int64_t)i);
                        if (c->paramHasAttr(i, Attribute::StructRet))
                        {
                            io["sret"] = (int64_t)i;
                            io["sretsz"] = (int64_t)DL.getTypeAllocSize(c->getParamStructRetType(i));
                        }
                    }
                    io["ops"] = std::move(ops);
                    if (!byval.empty())
                        io["byval"] = std::move(byval);
                    if (Function* cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()))
                    {
                        io["callee"] = cf->getName().str();
                        io["cdem"] = dem(cf->getName());
                        if (cf->doesNotReturn())
                            io["noreturn"] = true;
                        if (cf->isDeclaration())
                            io["decl"] = true;
                    }
                    else
                        io["fp"] = val(c->getCalledOperand());
                    if (c->doesNotAccessMemory())
                        io["pure"] = true;
                    else if (c->onlyReadsMemory())
                        io["ro"] = true;
                    if (c->doesNotReturn())
                        io["noreturn"] = true;
                }
                else
                {
                    json::Array ops;
                    for (Use& u : I.operands())
                        ops.push_back(val(u.get()));
                    io["ops"] = std::move(ops);
                    if (auto* c = dyn_cast<CmpInst>(&I))
                    {
                        io["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                        if (c->getOperand(0)->getType()->isIntegerTy())
                            io["ow"] = (int64_t)c->getOperand(0)->getType()->getIntegerBitWidth();
                    }
                    if (isa<CastInst>(I))
                    {
                        io["ft"] = ty(I.getOperand(0)->getType());
                        if (I.getOperand(0)->getType()->isIntegerTy())
                            io["ow"] = (int64_t)I.getOperand(0)->getType()->getIntegerBitWidth();
                    }
                    if (auto* st = dyn_cast<StoreInst>(&I))
                    {
                        io["st"] = ty(st->getValueOperand()->getType());
                        io["ssz"] = (int64_t)DL.getTypeStoreSize(st->getValueOperand()->getType());
                        if (st->getValueOperand()->getType()->isIntegerTy())
                            io["sw"] = (int64_t)st->getValueOperand()->getType()->getIntegerBitWidth();
                        if (st->isVolatile())
                            io["volatile"] = true;
                    }
                    if (auto* ev = dyn_cast<ExtractValueInst>(&I))
                    {
                        json::Array ix;
                        for (unsigned i : ev->indices())
                            ix.push_back((int64_t)i);
                        io["idx"] = std::move(ix);
                    }
                    if (auto* ev = dyn_cast<InsertValueInst>(&I))
                    {
                        json::Array ix;
                        for (unsigned i : ev->indices())
                            ix.push_back((int64_t)i);
                        io["idx"] = std::move(ix);
                    }
                    if (auto* sv = dyn_cast<ShuffleVectorInst>(&I))
                    {
                        json::Array ix;
                        for (int i : sv->getShuffleMask())
                            ix.push_back((int64_t)i);
                        io["mask"] = std::move(ix);
                    }
                }
                is.push_back(std::move(io));
            }
            blocks.push_back(std::move(is));
        }
        o["blocks"] = std::move(blocks);
        J.value(json::Value(std::move(o)));
    }
    void enums()
    {
        DebugInfoFinder fi;
        fi.processModule(M);
        std::set<std::string> seen;
        for (DIType* t : fi.types())
        {
            auto* ct = dyn_cast<DICompositeType>(t);
            if (!ct || ct->isForwardDecl() || ct->getTag() != dwarf::DW_TAG_enumeration_type || ct->getName().empty())
                continue;
            std::string name = ct->getName().str();
            for (DIScope* s = ct->getScope(); s; s = s->getScope())
            {
                if (isa<DIFile>(s) || isa<DICompileUnit>(s))
                    break;
                if (!s->getName().empty())
                    name = (s->getName() + "::" + name).str();
            }
            if (!seen.insert(name).second)
                continue;
            json::Object o;
            for (DINode* e : ct->getElements())
                if (auto* d = dyn_cast<DIEnumerator>(e))
                    o[d->getName().str()] = (int64_t)d->getValue().getSExtValue();
            J.attributeBegin(name);
            J.value(std::move(o));
            J.attributeEnd();
        }
    }
    void types()
    {
        DebugInfoFinder fi;
        fi.processModule(M);
        std::set<std::string> seen;
        for (DIType* t : fi.types())
        {
            auto* ct = dyn_cast<DICompositeType>(t);
            if (!ct || ct->isForwardDecl())
                continue;
            if (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_class_type)
                continue;
            std::string name = ct->getName().str();
            for (DIScope* s = ct->getScope(); s; s = s->getScope())
            {
                if (isa<DIFile>(s) || isa<DICompileUnit>(s))
                    break;
                if (s->getName().empty())
                    continue;
                name = (s->getName() + "::" + name).str();
            }
            if (!seen.insert(name).second)
                continue;
            json::Array ms;
            for (DINode* e : ct->getElements())
            {
                auto* d = dyn_cast<DIDerivedType>(e);
                if (!d)
                    continue;
                if (d->isStaticMember())
                    continue;
                if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance)
                {
                    std::string tn, base;
                    uint64_t sz = d->getSizeInBits();
                    bool flt = false, sgn = false, en = false;
                    DIType* bt = d->getBaseType();
                    while (bt)
                    {
                        if (auto* dd = dyn_cast<DIDerivedType>(bt))
                        {
                            if (dd->getTag() == dwarf::DW_TAG_typedef || dd->getTag() == dwarf::DW_TAG_const_type ||
                                dd->getTag() == dwarf::DW_TAG_volatile_type)
                            {
                                bt = dd->getBaseType();
                                continue;
                            }
                            tn = (dd->getTag() == dwarf::DW_TAG_pointer_type) ? "*" : "&";
                        }
                        break;
                    }
                    if (bt)
                    {
                        if (auto* b = dyn_cast<DIBasicType>(bt))
                        {
                            flt = b->getEncoding() == dwarf::DW_ATE_float;
                            sgn = b->getEncoding() == dwarf::DW_ATE_signed || b->getEncoding() == dwarf::DW_ATE_signed_char;
                        }
                        if (auto* c = dyn_cast<DICompositeType>(bt))
                        {
                            en = c->getTag() == dwarf::DW_TAG_enumeration_type;
                            base = c->getName().str();
                            for (DIScope* s = c->getScope(); s; s = s->getScope())
                            {
                                if (isa<DIFile>(s) || isa<DICompileUnit>(s))
                                    break;
                                if (!s->getName().empty())
                                    base = (s->getName() + "::" + base).str();
                            }
                        }
                        if (tn.empty())
                            tn = base.empty() ? bt->getName().str() : base;
                        if (!sz)
                            sz = bt->getSizeInBits();
                    }
                    json::Object mo{{"n", d->getName().str()},
                                    {"o", (int64_t)d->getOffsetInBits()},
                                    {"s", (int64_t)sz},
                                    {"t", tn},
                                    {"inh", d->getTag() == dwarf::DW_TAG_inheritance}};
                    if (d->isBitField()) mo["bf"] = true;
                    if (flt) mo["flt"] = true;
                    if (sgn) mo["sgn"] = true;
                    if (en) mo["enum"] = true;
                    ms.push_back(std::move(mo));
                }
            }
            J.attributeBegin(name);
            J.value(json::Object{{"size", (int64_t)ct->getSizeInBits() / 8}, {"m", std::move(ms)},
                                 {"at", json::Array{ct->getFilename().str(), (int64_t)ct->getLine()}}});
            J.attributeEnd();
        }
    }
    void globals()
    {
        std::set<GlobalVariable*> done;
        bool more = true;
        while (more)
        {
            more = false;
            auto snapshot = usedGlobals;
            for (GlobalVariable* g : snapshot)
            {
                if (!done.insert(g).second)
                    continue;
                more = true;
                json::Object o;
                o["dem"] = dem(g->getName());
                o["const"] = g->isConstant();
                o["size"] = (int64_t)DL.getTypeAllocSize(g->getValueType());
                if (g->hasInitializer())
                {
                    json::Array a;
                    flatten(g->getInitializer(), 0, a);
                    o["init"] = std::move(a);
                }
                J.attributeBegin(g->getName());
                J.value(json::Value(std::move(o)));
                J.attributeEnd();
            }
        }
    }
    std::set<GlobalVariable*> usedGlobals;

 private:
    Module& M;
    const DataLayout& DL;
    json::OStream& J;
    DenseMap<Value*, int64_t> ids;
    DenseMap<BasicBlock*, int64_t> blk;
};

int main(int argc, char** argv)
{
    if (argc < 4)
    {
        errs() << "usage: irtool OUT.json POLICY.json a.bc...\n";
        return 2;
    }
    auto pb = MemoryBuffer::getFile(argv[2]);
    if (!pb)
        return 2;
    auto pj = json::parse((*pb)->getBuffer());
    if (!pj)
    {
        errs() << "bad policy\n";
        return 2;
    }
    const json::Object& pol = *pj->getAsObject();
    if (const json::Array* a = pol.getArray("llvm"))
    {
        std::vector<std::string> keep{"irtool"};
        for (const json::Value& v : *a)
            keep.push_back(v.getAsString()->str());
        std::vector<const char*> av;
        for (auto& s : keep)
            av.push_back(s.c_str());
        cl::ParseCommandLineOptions(av.size(), av.data());
    }
    LLVMContext C;
    std::unique_ptr<Module> M;
    for (int i = 3; i < argc; ++i)
    {
        SMDiagnostic err;
        auto m = parseIRFile(argv[i], err, C);
        if (!m)
        {
            err.print("irtool", errs());
            return 2;
        }
        if (!M)
            M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m)))
            return 2;
    }
    auto roots = compileList(pol, "roots");
    auto inl = compileList(pol, "inline");
    auto keep = compileList(pol, "keep");
    std::set<Function*> rootSet;
    for (Function& F : *M)
    {
        if (F.isDeclaration())
            continue;
        std::string d = dem(F.getName());
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::OptimizeForSize);
        bool isRoot = matches(roots, d);
        if (isRoot)
        {
            rootSet.insert(&F);
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::ExternalLinkage);
        }
        else
        {
            F.setComdat(nullptr);
            F.setLinkage(GlobalValue::InternalLinkage);
        }
        if (matches(keep, d))
        {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
        }
        else if (matches(inl, d))
        {
            F.removeFnAttr(Attribute::NoInline);
            F.addFnAttr(Attribute::AlwaysInline);
        }
        else
        {
            F.removeFnAttr(Attribute::AlwaysInline);
            F.addFnAttr(Attribute::NoInline);
        }
    }
    for (GlobalVariable& g : M->globals())
        if (!g.isDeclaration())
        {
            g.setComdat(nullptr);
            if (!g.getName().starts_with("llvm."))
                g.setLinkage(GlobalValue::InternalLinkage);
        }
    if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
        if (!pol.getBoolean("keep_ctors").value_or(false))
            g->eraseFromParent();
    if (auto* g = M->getGlobalVariable("llvm.used")) g->eraseFromParent();
    if (auto* g = M->getGlobalVariable("llvm.compiler.used")) g->eraseFromParent();
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    std::string passes = pol.getString("passes").value_or("default<O1>").str();
    if (auto e = PB.parsePassPipeline(MPM, passes))
    {
        errs() << "bad pipeline: " << toString(std::move(e)) << "\n";
        return 2;
    }
    MPM.run(*M, MAM);

    std::error_code ec;
    raw_fd_ostream os(argv[1], ec);
    json::OStream J(os);
    J.objectBegin();
    Dumper D(*M, J);
    J.attributeBegin("functions");
    J.arrayBegin();
    for (Function& F : *M)
        if (!F.isDeclaration())
            D.function(F);
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("globals");
    J.objectBegin();
    D.globals();
    J.objectEnd();
    J.attributeEnd();
    J.attributeBegin("types");
    J.objectBegin();
    D.types();
    J.objectEnd();
    J.attributeEnd();
    J.attributeBegin("enums");
    J.objectBegin();
    D.enums();
    J.objectEnd();
    J.attributeEnd();
    J.objectEnd();
    if (pol.getBoolean("ll").value_or(false))
    {
        raw_fd_ostream ls(std::string(argv[1]) + ".ll", ec);
        M->print(ls, nullptr);
    }
    return 0;
}
