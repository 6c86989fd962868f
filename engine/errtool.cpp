// errtool: typestate analysis of error values over unoptimised LLVM IR of one translation unit.
//
//   errtool ROOT a.bc
//
// Every local of type mc::Error or mc::ErrorResult<T> is tracked through the control flow graph: a call that returns such a value into it makes it pending,
// any use of its contents (a member function whose answer is used, being returned, copied, passed on) examines it. A value that is still pending
// when its storage is given a new value, its life ends or the function returns was dropped. Prints one line per tracked call and per drop:
//   DEF <tab> file <tab> line <tab> function <tab> callee
//   DROP <tab> file <tab> line <tab> function <tab> callee <tab> how
// For deciding which functions can report failure at all, also
//   FN <tab> function            (a definition that was analysed)
//   MAY <tab> function           (it makes an error value from something that is not tracked)
//   VT <tab> type <tab> slot <tab> function
// A virtual call's callee is printed as "virtual <type> <slot>". Functions are mangled names followed by a blank and the readable name.
#include <map>
#include <set>
#include <string>
#include <vector>
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

static bool isErr(Type* t)
{
    auto* s = dyn_cast<StructType>(t);
    if (!s || !s->hasName())
        return false;
    StringRef n = s->getName();
    for (StringRef p : {"class.mc::Error", "struct.mc::Error"})
        if (n.startswith(p))
        {
            StringRef r = n.substr(p.size());
            return r.empty() || r[0] == '.' || r.startswith("Result");
        }
    return false;
}

static const Value* base(const Value* v)
{
    for (;;)
    {
        if (auto* g = dyn_cast<GEPOperator>(v))
            v = g->getPointerOperand();
        else if (auto* c = dyn_cast<BitCastOperator>(v))
            v = c->getOperand(0);
        else if (auto* a = dyn_cast<AddrSpaceCastInst>(v))
            v = a->getOperand(0);
        else
            return v;
    }
}

static std::string calleeName(const CallBase* c)
{
    if (const Function* f = c->getCalledFunction())
        return llvm::demangle(f->getName().str());
    // a virtual call: load of a slot of a vtable whose type is tested
    auto* l = dyn_cast<LoadInst>(c->getCalledOperand());
    if (!l)
        return "<indirect>";
    APInt off(64, 0);
    const Value* vt = l->getPointerOperand()->stripAndAccumulateConstantOffsets(c->getModule()->getDataLayout(), off, true);
    for (const User* u : vt->users())
        if (auto* t = dyn_cast<CallInst>(u))
            if (t->getCalledFunction() && t->getCalledFunction()->getName().startswith("llvm.") && t->getCalledFunction()->getName().contains("type.test"))
                if (auto* mv = dyn_cast<MetadataAsValue>(t->getArgOperand(1)))
                    if (auto* ms = dyn_cast<MDString>(mv->getMetadata()))
                        return "virtual " + ms->getString().str() + " " + std::to_string(off.getSExtValue() / 8);
    return "<indirect>";
}

static std::string id(const CallBase* c)
{
    if (const Function* f = c->getCalledFunction())
        return f->getName().str() + " " + calleeName(c);
    return calleeName(c);
}

// the call a stored value comes from, if any
static const CallBase* origin(const Value* v, int depth = 0)
{
    if (depth > 6)
        return nullptr;
    if (auto* c = dyn_cast<CallBase>(v))
        return c;
    if (auto* u = dyn_cast<UnaryInstruction>(v))
        if (!isa<LoadInst>(u))
            return origin(u->getOperand(0), depth + 1);
    return nullptr;
}

static bool ownMember(StringRef n)
{
    return n.startswith("_ZN2mc5Error") || n.startswith("_ZNK2mc5Error") || n.startswith("_ZN2mc11ErrorResultI") || n.startswith("_ZNK2mc11ErrorResultI");
}

static bool isDtor(const std::string& n) { return n.find("::~") != std::string::npos; }
static bool isNone(const std::string& n) { return n == "mc::Error::none()"; }

static bool returnsError(const DISubprogram* sp)
{
    auto* t = sp->getType();
    if (!t || t->getTypeArray().size() == 0 || !t->getTypeArray()[0])
        return false;
    DIType* r = t->getTypeArray()[0];
    while (auto* d = dyn_cast<DIDerivedType>(r))
    {
        if (!d->getBaseType() || (d->getTag() != dwarf::DW_TAG_const_type && d->getTag() != dwarf::DW_TAG_typedef))
            break;
        r = d->getBaseType();
    }
    return r->getName() == "Error" || r->getName().startswith("ErrorResult<");
}

int main(int argc, char** argv)
{
    LLVMContext ctx;
    SMDiagnostic diag;
    auto m = parseIRFile(argv[2], diag, ctx);
    if (!m)
    {
        diag.print("errtool", errs());
        return 1;
    }
    std::string root = argv[1];
    for (GlobalVariable& g : m->globals())
    {
        SmallVector<MDNode*, 4> ts;
        g.getMetadata(LLVMContext::MD_type, ts);
        if (ts.empty() || !g.hasInitializer())
            continue;
        for (MDNode* t : ts)
        {
            auto* ty = dyn_cast<MDString>(t->getOperand(1));
            if (!ty)
                continue;
            uint64_t at = cast<ConstantInt>(cast<ConstantAsMetadata>(t->getOperand(0))->getValue())->getZExtValue();
            uint64_t pos = 0;
            Constant* init = g.getInitializer();
            for (unsigned a = 0; a < init->getNumOperands(); ++a)
            {
                auto* arr = dyn_cast<Constant>(init->getOperand(a));
                for (unsigned k = 0; k < arr->getNumOperands(); ++k, pos += 8)
                    if (pos >= at)
                        if (auto* f = dyn_cast<Function>(arr->getOperand(k)->stripPointerCasts()))
                            outs() << "VT\t" << ty->getString() << "\t" << (pos - at) / 8 << "\t" << f->getName() << "\n";
            }
        }
    }
    {
        // keep the error objects in memory while other variables are promoted and paths told apart
        auto* ft = FunctionType::get(Type::getVoidTy(ctx), {PointerType::get(ctx, 0)}, false);
        FunctionCallee keep = m->getOrInsertFunction("errtool.keep", ft);
        for (Function& f : *m)
        {
            std::vector<AllocaInst*> as;
            for (Instruction& i : instructions(f))
                if (auto* a = dyn_cast<AllocaInst>(&i))
                    if (isErr(a->getAllocatedType()))
                        as.push_back(a);
            for (auto* a : as)
                CallInst::Create(ft, keep.getCallee(), {a}, "", a->getNextNode());
        }
        PassBuilder pb;
        LoopAnalysisManager lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager cam;
        ModuleAnalysisManager mam;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (pb.parsePassPipeline(mpm, "function(sroa,jump-threading)"))
            return 1;
        mpm.run(*m, mam);
    }
    for (Function& f : *m)
    {
        if (f.isDeclaration() || !f.getSubprogram())
            continue;
        auto* sp = f.getSubprogram();
        std::string dir = sp->getDirectory().str(), file = sp->getFilename().str();
        if (file.empty() || file[0] != '/')
            file = dir + "/" + file;
        if (file.compare(0, root.size(), root) == 0)
            file = file.substr(root.size());
        std::string fn = llvm::demangle(f.getName().str());
        // the error types' own members only move the representation around
        if (ownMember(f.getName()))
            continue;
        outs() << "FN\t" << f.getName() << " " << fn << "\n";
        const bool strict = returnsError(sp);
        std::vector<const AllocaInst*> objs;
        for (Instruction& i : instructions(f))
            if (auto* a = dyn_cast<AllocaInst>(&i))
                if (isErr(a->getAllocatedType()))
                    objs.push_back(a);
        for (const AllocaInst* a : objs)
        {
            // events per instruction
            enum Kind
            {
                None,
                Def,
                Use,
                End,
                Copy
            };
            auto event = [&](const Instruction& i, const CallBase*& src) -> Kind {
                src = nullptr;
                if (auto* s = dyn_cast<StoreInst>(&i))
                {
                    if (base(s->getPointerOperand()) == a)
                    {
                        src = origin(s->getValueOperand());
                        return Def;
                    }
                    if (base(s->getValueOperand()) == a)
                        return Use;
                    return None;
                }
                if (auto* l = dyn_cast<LoadInst>(&i))
                    return base(l->getPointerOperand()) == a && !l->use_empty() ? Use : None;
                if (auto* c = dyn_cast<CallBase>(&i))
                {
                    if (auto* ii = dyn_cast<IntrinsicInst>(c))
                    {
                        if (ii->getIntrinsicID() == Intrinsic::lifetime_end && base(ii->getArgOperand(1)) == a)
                            return End;
                        if (ii->getIntrinsicID() == Intrinsic::lifetime_start && base(ii->getArgOperand(1)) == a)
                            return End;
                        if (auto* mt = dyn_cast<MemTransferInst>(ii))
                        {
                            if (base(mt->getRawSource()) == a)
                                return Use;
                            if (base(mt->getRawDest()) == a)
                                return Def;
                        }
                        return None;
                    }
                    std::string n = calleeName(c);
                    const bool own = c->getCalledFunction() && ownMember(c->getCalledFunction()->getName());
                    if (n == "errtool.keep")
                        return None;
                    for (unsigned k = 0; k < c->arg_size(); ++k)
                        if (c->getArgOperand(k)->getType()->isPointerTy() && base(c->getArgOperand(k)) == a)
                        {
                            if (c->paramHasAttr(k, Attribute::StructRet))
                            {
                                src = c;
                                return Def;
                            }
                            if (isDtor(n))
                                return End;
                            // construction, or assignment to it: a new value
                            if (k == 0 && own && (n.find("::Error(") != std::string::npos || n.find("::ErrorResult(") != std::string::npos || n.find("::operator=(") != std::string::npos))
                                return Def;
                            // taking the result out is not asking whether there is one
                            if (k == 0 && own && n.find("::res(") != std::string::npos)
                                return None;
                            // a question whose answer nobody looks at
                            if (k == 0 && own && c->use_empty() && !c->getType()->isVoidTy())
                                return None;
                            return Use;
                        }
                    return None;
                }
                for (const llvm::Use& u : i.operands())
                    if (u->getType()->isPointerTy() && base(u.get()) == a && !isa<GetElementPtrInst>(&i) && !isa<BitCastInst>(&i))
                        return Use;
                return None;
            };
            using Set = std::set<const CallBase*>;
            std::map<const BasicBlock*, Set> in;
            std::set<std::pair<const CallBase*, std::string>> drops;
            std::set<const CallBase*> defs, used;
            bool may = false;
            auto line = [](const Instruction* i) { return i->getDebugLoc() ? i->getDebugLoc().getLine() : 0; };
            std::vector<const BasicBlock*> work{&f.getEntryBlock()};
            std::set<const BasicBlock*> seen;
            while (!work.empty())
            {
                const BasicBlock* b = work.back();
                work.pop_back();
                seen.insert(b);
                Set p = in[b];
                for (const Instruction& i : *b)
                {
                    const CallBase* src;
                    Kind k = event(i, src);
                    if (k == Def)
                    {
                        for (auto* c : p)
                            drops.insert({c, "overwritten"});
                        p.clear();
                        if (!src)
                        {
                            // a copy of another tracked object, or something from elsewhere
                            auto* mt = dyn_cast<MemTransferInst>(&i);
                            auto* o = mt ? dyn_cast<AllocaInst>(base(mt->getRawSource())) : nullptr;
                            if (!o || !isErr(o->getAllocatedType()))
                                may = true;
                        }
                        if (src && !isNone(calleeName(src)))
                        {
                            p.insert(src);
                            defs.insert(src);
                        }
                    }
                    else if (k == Use)
                    {
                        used.insert(p.begin(), p.end());
                        p.clear();
                    }
                    else if (k == End)
                    {
                        for (auto* c : p)
                            drops.insert({c, "never examined"});
                        p.clear();
                    }
                    else if (isa<ReturnInst>(&i))
                        for (auto* c : p)
                            drops.insert({c, "never examined"});
                }
                for (const BasicBlock* s : successors(b))
                {
                    size_t n = in[s].size();
                    in[s].insert(p.begin(), p.end());
                    if (in[s].size() != n || !seen.count(s))
                        work.push_back(s);
                }
            }
            if (may)
                outs() << "MAY\t" << f.getName() << " " << fn << "\n";
            for (auto* c : defs)
                outs() << "DEF\t" << file << "\t" << line(c) << "\t" << f.getName() << " " << fn << "\t" << id(c) << "\n";
            // where the failure is not handed on by the function's own result, asking on some paths only is the caller's decision
            for (auto& d : drops)
                if (strict || d.second == "overwritten" || !used.count(d.first))
                    outs() << "DROP\t" << file << "\t" << line(d.first) << "\t" << f.getName() << " " << fn << "\t" << id(d.first) << "\t" << d.second << "\n";
        }
        // a call whose value is not even stored
        for (Instruction& i : instructions(f))
            if (auto* c = dyn_cast<CallBase>(&i))
                if (const Function* g = c->getCalledFunction())
                    if (g->getSubprogram() && !c->getType()->isVoidTy() && c->use_empty())
                    {
                        if (returnsError(g->getSubprogram()) && !isNone(calleeName(c)))
                            outs() << "DROP\t" << file << "\t" << (c->getDebugLoc() ? c->getDebugLoc().getLine() : 0) << "\t" << f.getName() << " " << fn << "\t" << id(c) << "\tnever looked at\n";
                    }
    }
    return 0;
}
