// kir: turns the LLVM bitcode of a translation unit of kpsr-core into a
// normalised program graph (JSON) for the static rules in ../rules.
//
// Normalisation (semantics preserving): functions of the repository (and a
// listed set of thin std:: helpers) are inlined into their callers, objects on
// the stack are promoted to SSA values, expressions are canonicalised.  All
// other library functions lose their body and stay as named call events.
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/Reassociate.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include <functional>
#include <map>
#include <set>

using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required);
static cl::opt<std::string> Out("o", cl::Required);
static cl::list<std::string> Roots("root", cl::desc("regex of functions to emit"));
static cl::list<std::string> Keep("keep", cl::desc("regex of functions kept as events"));
static cl::list<std::string> KeepDefault("lib-keep", cl::desc("default keep regex"));
static cl::list<std::string> InlineStd("lib-inline", cl::desc("library functions to inline"));
static cl::list<std::string> Erase("erase", cl::desc("calls removed (logging)"));
static cl::list<std::string> NoThrow("nothrow", cl::desc("library functions taken not to throw"));
static cl::list<std::string> RepoDir("repo", cl::desc("path prefixes of repository sources"));
static cl::opt<bool> NoOpt("noopt");
static cl::opt<std::string> DynClass("dyn-class",
                                     cl::desc("class (regex) every object of the dyn-root functions has"));
static cl::opt<std::string> DynRoot("dyn-root", cl::desc("regex of functions (stripped name)"));

static std::map<const Function *, std::string> Dem;
static const std::string &demName(const Function *F)
{
    auto it = Dem.find(F);
    if (it != Dem.end())
        return it->second;
    return Dem[F] = demangle(F->getName().str());
}

static bool matchAny(std::vector<Regex> &rs, const std::string &s)
{
    for (auto &r : rs)
        if (r.match(s))
            return true;
    return false;
}
static std::vector<Regex> compile(const cl::list<std::string> &l)
{
    std::vector<Regex> v;
    for (auto &s : l) {
        Regex r(s);
        std::string e;
        if (!r.isValid(e)) {
            errs() << "bad regex " << s << ": " << e << "\n";
            exit(3);
        }
        v.push_back(std::move(r));
    }
    return v;
}
static std::string filePath(const DIFile *f)
{
    if (!f)
        return "";
    StringRef n = f->getFilename();
    if (n.starts_with("/"))
        return n.str();
    return (f->getDirectory() + "/" + n).str();
}
static bool inRepo(const Function &F)
{
    auto *sp = F.getSubprogram();
    if (!sp)
        return false;
    std::string p = filePath(sp->getFile());
    for (auto &d : RepoDir)
        if (StringRef(p).starts_with(d))
            return true;
    return false;
}

// ------------------------------------------------------------------ types
static std::map<const DIType *, int> TyId;
static std::vector<const DIType *> TyList;
/// is the parameter a pointer or reference to const?
static bool refToConst(const DIType *t)
{
    bool ref = false;
    while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
        switch (d->getTag()) {
        case dwarf::DW_TAG_reference_type:
        case dwarf::DW_TAG_rvalue_reference_type:
        case dwarf::DW_TAG_pointer_type:
            if (ref)
                return false;
            ref = true;
            break;
        case dwarf::DW_TAG_const_type:
            if (ref)
                return true;
            break;
        case dwarf::DW_TAG_typedef:
        case dwarf::DW_TAG_volatile_type:
            break;
        default:
            return false;
        }
        t = d->getBaseType();
    }
    return false;
}

static int tyId(const DIType *t)
{
    if (!t)
        return -1;
    auto it = TyId.find(t);
    if (it != TyId.end())
        return it->second;
    int id = TyList.size();
    TyId[t] = id;
    TyList.push_back(t);
    return id;
}
static std::string scopeName(const DIScope *s)
{
    std::string r;
    while (s) {
        if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
            std::string n = s->getName().str();
            if (n.empty())
                n = isa<DINamespace>(s) ? "(anonymous)" : "(anon)";
            r = r.empty() ? n : n + "::" + r;
        } else if (auto *sp = dyn_cast<DISubprogram>(s)) {
            std::string n = sp->getName().str();
            r = r.empty() ? n : n + "::" + r;
        }
        s = s->getScope();
    }
    return r;
}
// a name without template arguments
static std::string stripName(StringRef n)
{
    size_t start = 0;
    if (n.starts_with("operator")) {
        start = 8;
        while (start < n.size() && StringRef("<>=-+*/!&|^%~[]() ").contains(n[start])) {
            // "operator<" "operator<<" "operator<=" "operator<=>" "operator->" ...
            StringRef rest = n.substr(start);
            bool ok = false;
            for (StringRef t : {"<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "->", "()", "[]",
                                "==", "!=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "|=",
                                "&=", "^=", "%=", "<", ">", "=", "+", "-", "*", "/", "!", "&", "|",
                                "^", "%", "~"})
                if (rest.starts_with(t)) {
                    start += t.size();
                    ok = true;
                    break;
                }
            if (!ok)
                start++;
            else
                break;
        }
    }
    size_t p = n.find('<', start);
    if (p == StringRef::npos)
        return n.str();
    return n.substr(0, p).str();
}
static std::string strippedScope(const DIScope *s)
{
    std::string r;
    while (s) {
        if (isa<DINamespace>(s) || isa<DICompositeType>(s) || isa<DISubprogram>(s)) {
            std::string n = s->getName().str();
            if (n.empty())
                n = isa<DINamespace>(s) ? "(anonymous)" : "(anon)";
            n = stripName(n);
            r = r.empty() ? n : n + "::" + r;
        }
        s = s->getScope();
    }
    return r;
}
static std::string stripDem(const std::string &d)
{
    // demangled name of a function without debug info: drop arguments and templates
    std::string o;
    int depth = 0;
    StringRef n(d);
    size_t i = 0;
    while (i < n.size()) {
        char c = n[i];
        if (depth == 0 && n.substr(i).starts_with("operator")) {
            size_t k = i + 8;
            o += "operator";
            StringRef rest = n.substr(k);
            if (rest.starts_with(" ")) { // new, delete, conversions
                int d = 0;
                while (k < n.size() && (d || n[k] != '(')) {
                    d += n[k] == '<' ? 1 : n[k] == '>' ? -1 : 0;
                    if (!d && n[k] != '>')
                        o += n[k];
                    k++;
                }
                i = k;
                continue;
            }
            for (StringRef t : {"<=>", "<<=", ">>=", "->*", "<<", ">>", "<=", ">=", "->", "()", "[]",
                                "==", "!=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "|=",
                                "&=", "^=", "%=", "<", ">", "=", "+", "-", "*", "/", "!", "&", "|",
                                "^", "%", "~"})
                if (rest.starts_with(t)) {
                    o += t.str();
                    k += t.size();
                    break;
                }
            i = k;
            continue;
        }
        if (c == '<')
            depth++;
        else if (c == '>')
            depth--;
        else if (c == '(' && depth == 0) {
            if (n.substr(i).starts_with("(anonymous namespace)")) {
                o += "(anonymous)";
                i += strlen("(anonymous namespace)");
                continue;
            }
            if (StringRef(o).ends_with("decltype")) { // a computed result type
                int d = 0;
                do {
                    d += n[i] == '(' ? 1 : n[i] == ')' ? -1 : 0;
                    i++;
                } while (d && i < n.size());
                continue;
            }
            break;
        } else if (depth == 0) {
            if (c == ' ')
                o.clear();
            else
                o += c;
        }
        i++;
    }
    return o;
}
static std::map<const Function *, DISubprogram *> Sp; // also of functions whose bodies are dropped
static DISubprogram *subOf(const Function *f)
{
    if (auto *s = f->getSubprogram())
        return s;
    auto it = Sp.find(f);
    return it == Sp.end() ? nullptr : it->second;
}
static std::map<const Function *, std::string> Sq;
static const std::string &sqName(const Function *F)
{
    auto it = Sq.find(F);
    if (it != Sq.end())
        return it->second;
    std::string r;
    if (auto *sp = F->getSubprogram())
        r = strippedScope(sp);
    else
        r = stripDem(demName(F));
    if (StringRef(r).starts_with("std::operator")) {
        // operators on strings get a name of their own
        StringRef d(demName(F));
        size_t p = d.find('('), q = p == StringRef::npos ? p : d.substr(p + 1).starts_with(")(") ? d.find('(', p + 1) : p;
        if (q != StringRef::npos && d.substr(q).contains("basic_string<") && !d.substr(q).contains("basic_ostream") && !d.substr(q).contains("pair<"))
            r = "std::__cxx11::" + r.substr(5);
    }
    return Sq[F] = r;
}
static json::Value typeJson(const DIType *t)
{
    json::Object o;
    o["name"] = t->getName().str();
    o["tag"] = dwarf::TagString(t->getTag()).drop_front(strlen("DW_TAG_")).str();
    o["size"] = (int64_t) (t->getSizeInBits() / 8);
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        o["base"] = tyId(d->getBaseType());
    } else if (auto *c = dyn_cast<DICompositeType>(t)) {
        o["q"] = scopeName(c);
        o["base"] = tyId(c->getBaseType());
        json::Array mem, methods;
        json::Object enums;
        int64_t count = -1;
        for (auto *e : c->getElements()) {
            if (!e)
                continue;
            if (auto *m = dyn_cast<DIDerivedType>(e)) {
                if (m->isStaticMember())
                    continue;
                if (m->getTag() == dwarf::DW_TAG_member ||
                    m->getTag() == dwarf::DW_TAG_inheritance) {
                    mem.push_back(json::Object{{"name", m->getName().str()},
                                               {"off", (int64_t) (m->getOffsetInBits() / 8)},
                                               {"ty", tyId(m->getBaseType())},
                                               {"size", (int64_t) (m->getSizeInBits() / 8)},
                                               {"inh",
                                                m->getTag() == dwarf::DW_TAG_inheritance},
                                               {"virt", m->isVirtual()},
                                               {"bit", m->isBitField()}});
                }
            } else if (auto *en = dyn_cast<DIEnumerator>(e)) {
                enums[en->getName().str()] = en->getValue().getSExtValue();
            } else if (auto *sr = dyn_cast<DISubrange>(e)) {
                if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount()))
                    count = (count < 0 ? 1 : count) * ci->getSExtValue();
            } else if (auto *sp = dyn_cast<DISubprogram>(e)) {
                if (sp->getVirtuality()) {
                    json::Array cp;
                    if (auto *ft = sp->getType()) {
                        auto ta = ft->getTypeArray();
                        for (unsigned k = 1; k < ta.size(); k++)
                            cp.push_back(refToConst(ta[k]));
                    }
                    methods.push_back(json::Object{{"name", sp->getName().str()},
                                                   {"link", sp->getLinkageName().str()},
                                                   {"vidx", (int64_t) sp->getVirtualIndex()},
                                                   {"cp", std::move(cp)}});
                }
            }
        }
        o["mem"] = std::move(mem);
        if (!enums.empty())
            o["enum"] = std::move(enums);
        o["count"] = count;
        o["virt"] = std::move(methods);
        json::Array tp;
        for (auto *p : c->getTemplateParams())
            if (auto *tt = dyn_cast<DITemplateTypeParameter>(p))
                tp.push_back(tyId(tt->getType()));
        o["targs"] = std::move(tp);
    } else if (auto *s = dyn_cast<DISubroutineType>(t)) {
        json::Array a;
        for (auto *x : s->getTypeArray())
            a.push_back(tyId(x));
        o["sig"] = std::move(a);
    }
    return o;
}

// ------------------------------------------------------------------ emit
static std::map<std::string, int> FileId;
static std::vector<std::string> Files;
static int fileId(const std::string &f)
{
    auto it = FileId.find(f);
    if (it != FileId.end())
        return it->second;
    FileId[f] = Files.size();
    Files.push_back(f);
    return Files.size() - 1;
}
static json::Value locJson(const DebugLoc &dl)
{
    json::Array a;
    for (const DILocation *l = dl.get(); l; l = l->getInlinedAt()) {
        auto *sp = l->getScope()->getSubprogram();
        a.push_back(json::Array{fileId(filePath(l->getFile())),
                                (int64_t) l->getLine(),
                                sp ? (strippedScope(sp)) : ""});
    }
    return a;
}

struct FnEmitter
{
    Function &F;
    const DataLayout &DL;
    std::map<const Value *, int> id;
    std::map<const BasicBlock *, int> bid;
    FnEmitter(Function &f)
        : F(f)
        , DL(f.getParent()->getDataLayout())
    {
        int n = 0;
        for (auto &a : F.args())
            id[&a] = n++;
        int b = 0;
        for (auto &bb : F) {
            bid[&bb] = b++;
            for (auto &i : bb)
                id[&i] = n++;
        }
    }
    json::Value opnd(const Value *v)
    {
        if (auto *ci = dyn_cast<ConstantInt>(v)) {
            if (ci->getBitWidth() <= 64)
                return json::Object{{"c", ci->getSExtValue()},
                                    {"w", (int64_t) ci->getBitWidth()}};
            SmallString<40> s;
            ci->getValue().toStringSigned(s);
            return json::Object{{"big", s.str().str()}};
        }
        if (isa<ConstantPointerNull>(v))
            return json::Object{{"null", true}};
        if (isa<UndefValue>(v))
            return json::Object{{"undef", isa<PoisonValue>(v) ? "poison" : "undef"}};
        if (auto *gv = dyn_cast<GlobalVariable>(v)) {
            json::Object o{{"g", gv->getName().str()}};
            if (gv->isConstant() && gv->hasInitializer())
                if (auto *cd = dyn_cast<ConstantDataSequential>(gv->getInitializer()))
                    if (cd->isCString()) {
                        std::string s = cd->getAsCString().str();
                        if (json::isUTF8(s))
                            o["str"] = s;
                    }
            if (gv->isConstant() && gv->hasInitializer())
                if (auto *az = dyn_cast<ConstantAggregateZero>(gv->getInitializer()))
                    if (auto *at = dyn_cast<ArrayType>(az->getType()))
                        if (at->getNumElements() == 1 && at->getElementType()->isIntegerTy(8))
                            o["str"] = "";
            return o;
        }
        if (auto *f = dyn_cast<Function>(v))
            return json::Object{{"f", f->getName().str()}, {"d", demName(f)}};
        if (auto *cf = dyn_cast<ConstantFP>(v)) {
            SmallString<40> s;
            cf->getValueAPF().toString(s);
            return json::Object{{"fp", s.str().str()}};
        }
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (auto *g = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (g->accumulateConstantOffset(DL, off))
                    return json::Object{{"cgep", opnd(g->getPointerOperand())},
                                        {"off", off.getSExtValue()}};
            }
            json::Array a;
            for (auto &o : ce->operands())
                a.push_back(opnd(o));
            return json::Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(a)}};
        }
        auto it = id.find(v);
        if (it != id.end())
            return it->second;
        if (isa<ConstantAggregateZero>(v))
            return json::Object{{"zero", true}};
        std::string s;
        raw_string_ostream os(s);
        v->printAsOperand(os, false);
        return json::Object{{"x", json::fixUTF8(s)}};
    }
    static std::string tyStr(Type *t)
    {
        std::string s;
        raw_string_ostream os(s);
        t->print(os, false, true);
        return s;
    }
    static const char *ord(AtomicOrdering o)
    {
        switch (o) {
        case AtomicOrdering::NotAtomic:
            return "na";
        case AtomicOrdering::Unordered:
            return "unordered";
        case AtomicOrdering::Monotonic:
            return "relaxed";
        case AtomicOrdering::Acquire:
            return "acquire";
        case AtomicOrdering::Release:
            return "release";
        case AtomicOrdering::AcquireRelease:
            return "acq_rel";
        default:
            return "seq_cst";
        }
    }
    json::Value run()
    {
        json::Object fo;
        auto *sp = F.getSubprogram();
        fo["name"] = F.getName().str();
        fo["dem"] = demName(&F);
        fo["sq"] = sqName(&F);
        if (sp) {
            fo["q"] = scopeName(sp);
            fo["file"] = filePath(sp->getFile());
            fo["line"] = (int64_t) sp->getLine();
            if (sp->getType()) {
                json::Array a;
                for (auto *x : sp->getType()->getTypeArray())
                    a.push_back(tyId(x));
                fo["sig"] = std::move(a);
            }
            if (auto *d = sp->getDeclaration()) {
                fo["decl"] = d->getLinkageName().str();
                auto a = d->getFlags() & DINode::FlagAccessibility;
                bool cls = d->getScope() && d->getScope()->getTag() == dwarf::DW_TAG_class_type;
                fo["acc"] = a == DINode::FlagPublic      ? "public"
                            : a == DINode::FlagProtected ? "protected"
                            : a == DINode::FlagPrivate   ? "private"
                            : cls                        ? "private"
                                                         : "public";
                fo["virtual"] = d->getVirtuality() != 0;
            }
        }
        fo["ret"] = tyStr(F.getReturnType());
        fo["nounwind"] = F.doesNotThrow();
        json::Array args;
        for (auto &a : F.args())
            args.push_back(json::Object{{"name", a.getName().str()},
                                        {"ty", tyStr(a.getType())},
                                        {"sret", a.hasStructRetAttr()},
                                        {"byval", a.hasByValAttr()}});
        fo["args"] = std::move(args);
        json::Array vars;
        json::Array blocks;
        for (auto &bb : F) {
            json::Object bo;
            bo["id"] = bid[&bb];
            json::Array insts;
            for (auto &i : bb) {
                if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
                    if (dv->getNumVariableLocationOps() == 1) {
                        Value *v = dv->getVariableLocationOp(0);
                        auto it = v ? id.find(v) : id.end();
                        auto *ex = dv->getExpression();
                        bool plain = !ex || ex->getNumElements() == 0;
                        bool frag = ex && ex->getFragmentInfo().has_value() &&
                                    ex->getNumElements() == 3;
                        if (it != id.end()) {
                            json::Object vo{{"v", it->second},
                                            {"name", dv->getVariable()->getName().str()},
                                            {"arg", (int64_t) dv->getVariable()->getArg()},
                                            {"ty", tyId(dv->getVariable()->getType())},
                                            {"decl", isa<DbgDeclareInst>(dv)},
                                            {"inl",
                                             dv->getDebugLoc() &&
                                                 dv->getDebugLoc()->getInlinedAt() != nullptr},
                                            {"plain", plain}};
                            if (frag)
                                vo["frag"] = (int64_t) (ex->getFragmentInfo()->OffsetInBits / 8);
                            vars.push_back(std::move(vo));
                        }
                    }
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&i))
                    continue;
                if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
                    auto k = ii->getIntrinsicID();
                    if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end ||
                        k == Intrinsic::experimental_noalias_scope_decl ||
                        k == Intrinsic::assume)
                        continue;
                }
                insts.push_back(inst(i));
            }
            bo["insts"] = std::move(insts);
            blocks.push_back(std::move(bo));
        }
        fo["blocks"] = std::move(blocks);
        fo["vars"] = std::move(vars);
        return fo;
    }
    json::Value inst(Instruction &i)
    {
        json::Object o;
        o["i"] = id[&i];
        std::string op = i.getOpcodeName();
        o["op"] = op;
        if (!i.getType()->isVoidTy())
            o["ty"] = tyStr(i.getType());
        if (i.getDebugLoc())
            o["loc"] = locJson(i.getDebugLoc());
        json::Array ops;
        if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
            unsigned bw = DL.getIndexTypeSizeInBits(g->getType());
            MapVector<Value *, APInt> var;
            APInt c(bw, 0);
            ops.push_back(opnd(g->getPointerOperand()));
            o["sty"] = tyStr(g->getSourceElementType());
            if (g->collectOffset(DL, bw, var, c)) {
                o["off"] = c.getSExtValue();
                json::Array va;
                for (auto &p : var)
                    va.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
                o["var"] = std::move(va);
            }
        } else if (auto *p = dyn_cast<PHINode>(&i)) {
            json::Array inc;
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
                inc.push_back(json::Array{opnd(p->getIncomingValue(k)),
                                          bid[p->getIncomingBlock(k)]});
            o["inc"] = std::move(inc);
        } else if (auto *b = dyn_cast<BranchInst>(&i)) {
            if (b->isConditional())
                ops.push_back(opnd(b->getCondition()));
            json::Array s;
            for (unsigned k = 0; k < b->getNumSuccessors(); k++)
                s.push_back(bid[b->getSuccessor(k)]);
            o["succ"] = std::move(s);
        } else if (auto *s = dyn_cast<SwitchInst>(&i)) {
            ops.push_back(opnd(s->getCondition()));
            json::Array cs;
            for (auto &c : s->cases())
                cs.push_back(json::Array{c.getCaseValue()->getSExtValue(),
                                         bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
            o["def"] = bid[s->getDefaultDest()];
        } else if (auto *cb = dyn_cast<CallBase>(&i)) {
            for (auto &a : cb->args())
                ops.push_back(opnd(a.get()));
            if (auto *f = cb->getCalledFunction()) {
                o["callee"] = f->getName().str();
                o["dem"] = demName(f);
                o["sq"] = sqName(f);
                if (auto *sp = subOf(f)) {
                    o["q"] = scopeName(sp);
                    if (sp->getType()) {
                        json::Array a;
                        for (auto *x : sp->getType()->getTypeArray())
                            a.push_back(tyId(x));
                        o["sig"] = std::move(a);
                    }
                }
                if (cb->hasStructRetAttr())
                    o["sret"] = true;
            } else
                o["ind"] = opnd(cb->getCalledOperand());
            if (cb->hasStructRetAttr())
                o["sret"] = true;
            if (cb->doesNotThrow())
                o["nounwind"] = true;
            if (cb->doesNotReturn())
                o["noreturn"] = true;
            if (auto *iv = dyn_cast<InvokeInst>(&i)) {
                o["normal"] = bid[iv->getNormalDest()];
                o["unwind"] = bid[iv->getUnwindDest()];
            }
        } else if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
            json::Array cl;
            for (unsigned k = 0; k < lp->getNumClauses(); k++)
                cl.push_back(opnd(lp->getClause(k)));
            o["clauses"] = std::move(cl);
            o["cleanup"] = lp->isCleanup();
        } else {
            for (auto &x : i.operands())
                ops.push_back(opnd(x.get()));
            if (auto *l = dyn_cast<LoadInst>(&i)) {
                o["ord"] = ord(l->getOrdering());
                if (l->isVolatile())
                    o["vol"] = true;
            } else if (auto *st = dyn_cast<StoreInst>(&i)) {
                o["ord"] = ord(st->getOrdering());
                o["vty"] = tyStr(st->getValueOperand()->getType());
                if (st->isVolatile())
                    o["vol"] = true;
            } else if (auto *c = dyn_cast<CmpInst>(&i)) {
                o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                o["cty"] = tyStr(c->getOperand(0)->getType());
            } else if (auto *r = dyn_cast<AtomicRMWInst>(&i)) {
                o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
                o["ord"] = ord(r->getOrdering());
            } else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&i)) {
                o["ord"] = ord(x->getSuccessOrdering());
                o["ford"] = ord(x->getFailureOrdering());
                o["weak"] = x->isWeak();
            } else if (auto *f = dyn_cast<FenceInst>(&i)) {
                o["ord"] = ord(f->getOrdering());
            } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                json::Array a;
                for (unsigned x : ev->indices())
                    a.push_back((int64_t) x);
                o["idx"] = std::move(a);
            } else if (auto *ivv = dyn_cast<InsertValueInst>(&i)) {
                json::Array a;
                for (unsigned x : ivv->indices())
                    a.push_back((int64_t) x);
                o["idx"] = std::move(a);
            } else if (auto *al = dyn_cast<AllocaInst>(&i)) {
                o["aty"] = tyStr(al->getAllocatedType());
                o["name"] = al->getName().str();
            }
            if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) {
                o["nsw"] = ob->hasNoSignedWrap();
                o["nuw"] = ob->hasNoUnsignedWrap();
            }
            if (isa<CastInst>(&i))
                o["from"] = tyStr(i.getOperand(0)->getType());
        }
        o["ops"] = std::move(ops);
        return o;
    }
};

// The virtual calls a function makes on its own object, when that object is of
// the class whose table this is, become direct calls.
static bool devirtualise(Function &F, GlobalVariable *table)
{
    if (F.arg_empty())
        return false;
    unsigned k = F.arg_size() > 1 && F.getArg(0)->hasStructRetAttr() ? 1 : 0;
    Value *self = F.getArg(k);
    auto *init = dyn_cast<ConstantStruct>(table->getInitializer());
    auto *arr = init ? dyn_cast<ConstantArray>(init->getOperand(0)) : nullptr;
    if (!arr)
        return false;
    const DataLayout &DL = F.getParent()->getDataLayout();
    bool any = false;
    for (auto &i : instructions(F)) {
        auto *cb = dyn_cast<CallBase>(&i);
        if (!cb || cb->getCalledFunction() || cb->isInlineAsm())
            continue;
        auto *slot = dyn_cast<LoadInst>(cb->getCalledOperand());
        if (!slot)
            continue;
        APInt off(64, 0);
        auto *vp = dyn_cast<LoadInst>(
            slot->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true));
        if (!vp || vp->getPointerOperand()->stripPointerCasts() != self)
            continue;
        uint64_t n = off.getZExtValue() / 8 + 2;
        if (n >= arr->getNumOperands())
            continue;
        if (auto *g = dyn_cast<Function>(arr->getOperand(n)->stripPointerCasts())) {
            if (g->getFunctionType() == cb->getFunctionType()) {
                cb->setCalledOperand(g);
                any = true;
            }
        }
    }
    return any;
}

static bool reaches(Function *from, Function *to, std::set<Function *> &seen,
                    const std::map<Function *, std::set<Function *>> &cg)
{
    if (!seen.insert(from).second)
        return false;
    auto it = cg.find(from);
    if (it == cg.end())
        return false;
    for (auto *g : it->second)
        if (g == to || reaches(g, to, seen, cg))
            return true;
    return false;
}

int main(int argc, char **argv)
{
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(In, err, ctx);
    if (!M) {
        err.print("kir", errs());
        return 3;
    }
    auto roots = compile(Roots), keep = compile(Keep), libKeep = compile(KeepDefault),
         inl = compile(InlineStd), erase = compile(Erase), nothrow = compile(NoThrow);

    // 0. complete-object constructors that are aliases of the base-object ones
    for (auto it = M->alias_begin(); it != M->alias_end();) {
        GlobalAlias &ga = *it++;
        if (auto *f = dyn_cast<Function>(ga.getAliasee()->stripPointerCasts())) {
            ga.replaceAllUsesWith(f);
            ga.eraseFromParent();
        }
    }
    // 1. erase logging calls
    for (auto &F : *M) {
        std::vector<CallBase *> dead;
        for (auto &i : instructions(F))
            if (auto *cb = dyn_cast<CallBase>(&i))
                if (auto *f = cb->getCalledFunction())
                    if (!f->isIntrinsic() && cb->getType()->isVoidTy() &&
                        matchAny(erase, sqName(f)))
                        dead.push_back(cb);
        for (auto *cb : dead) {
            if (auto *iv = dyn_cast<InvokeInst>(cb)) {
                iv->getUnwindDest()->removePredecessor(iv->getParent());
                BranchInst::Create(iv->getNormalDest(), iv);
                iv->eraseFromParent();
            } else
                cb->eraseFromParent();
        }
    }
    // 2. policies
    std::set<Function *> inlineSet, rootSet;
    json::Array keptRepo;
    for (auto &F : *M)
        if (auto *s = F.getSubprogram())
            Sp[&F] = s;
    for (auto &F : *M) {
        if (F.isDeclaration())
            continue;
        const std::string &d = demName(&F);
        bool repo = inRepo(F);
        if (repo && matchAny(roots, d))
            rootSet.insert(&F);
        bool in;
        if (repo)
            in = !matchAny(keep, d);
        else {
            const std::string &q = sqName(&F);
            in = !matchAny(keep, d) && !matchAny(libKeep, q) && matchAny(inl, q);
            // timed and predicate forms of condition waits are loops around the
            // primitive forms, which are the events
            StringRef qr(q);
            if (qr.contains("condition_variable") && qr.contains("::wait"))
                in = F.arg_size() > (qr.ends_with("::wait") ? 2u : 3u);
        }
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        F.removeFnAttr(Attribute::AlwaysInline);
        F.removeFnAttr(Attribute::InlineHint);
        if (in)
            inlineSet.insert(&F);
    }
    // recursive functions are not inlined
    std::map<Function *, std::set<Function *>> cg;
    for (auto *F : inlineSet)
        for (auto &i : instructions(*F))
            if (auto *cb = dyn_cast<CallBase>(&i))
                if (auto *g = cb->getCalledFunction())
                    if (inlineSet.count(g))
                        cg[F].insert(g);
    std::set<Function *> rec;
    for (auto *F : inlineSet) {
        std::set<Function *> seen;
        if (reaches(F, F, seen, cg))
            rec.insert(F);
    }
    for (auto &F : *M) {
        if (F.isDeclaration())
            continue;
        if (inlineSet.count(&F) && !rec.count(&F)) {
            F.addFnAttr(Attribute::AlwaysInline);
        } else if (!rootSet.count(&F) && !rec.count(&F)) {
            F.deleteBody();
            F.setComdat(nullptr);
        } else {
            F.addFnAttr(Attribute::NoInline);
        }
    }
    for (auto &F : *M)
        if (rootSet.count(&F) && matchAny(keep, demName(&F)))
            F.addFnAttr(Attribute::NoInline);
    // a wait on a condition variable takes the mutex of the lock object: the
    // event is wait(condition, mutex), so that the lock object does not escape
    for (auto &F : *M) {
        std::vector<CallBase *> waits;
        for (auto &i : instructions(F))
            if (auto *cb = dyn_cast<CallBase>(&i))
                if (auto *f = cb->getCalledFunction())
                    if (f->isDeclaration() && !f->isIntrinsic() && cb->arg_size() >= 2) {
                        StringRef q(sqName(f));
                        if (q.contains("condition_variable") && q.contains("wait"))
                            waits.push_back(cb);
                    }
        for (auto *cb : waits) {
            IRBuilder<> B(cb);
            cb->setArgOperand(1, B.CreateLoad(B.getPtrTy(), cb->getArgOperand(1)));
        }
    }
    // modelling assumptions: locking and notifying do not throw
    for (auto &F : *M) {
        if (!F.isDeclaration())
            continue;
        StringRef q(sqName(&F));
        if (matchAny(nothrow, q.str()))
            F.setDoesNotThrow();
    }
    // roots survive inlining
    for (auto *F : rootSet) {
        F->setComdat(nullptr);
        F->setLinkage(GlobalValue::ExternalLinkage);
    }
    // 3. normalise
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(AlwaysInlinerPass(false));
    if (!NoOpt) {
        FunctionPassManager FPM;
        SimplifyCFGOptions so;
        so.speculateBlocks(false)
            .sinkCommonInsts(false)
            .hoistCommonInsts(false)
            .convertSwitchToLookupTable(false)
            .convertSwitchRangeToICmp(true)
            .needCanonicalLoops(true)
            .setSimplifyCondBranch(true);
        for (int r = 0; r < 2; r++) {
            FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
            FPM.addPass(EarlyCSEPass(true));
            FPM.addPass(SCCPPass());
            FPM.addPass(SimplifyCFGPass(so));
            FPM.addPass(InstCombinePass());
            FPM.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false).setMemDep(true)));
            FPM.addPass(InstCombinePass());
            FPM.addPass(ADCEPass());
            FPM.addPass(SimplifyCFGPass(so));
        }
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    }
    MPM.run(*M, MAM);
    if (!DynClass.empty()) {
        Regex cls("^vtable for (" + DynClass + ")$"), fn(DynRoot);
        GlobalVariable *table = nullptr;
        for (auto &g : M->globals())
            if (g.hasInitializer() && cls.match(demangle(g.getName().str())))
                table = &g;
        if (!table) {
            errs() << "no such class: " << DynClass << "\n";
            return 3;
        }
        for (int r = 0; r < 4; r++) {
            bool any = false;
            for (auto *F : rootSet)
                if (fn.match(sqName(F)) && devirtualise(*F, table))
                    any = true;
            if (!any)
                break;
            FAM.clear();
            MAM.clear();
            CGAM.clear();
            LAM.clear();
            MPM.run(*M, MAM);
        }
    }
    if (verifyModule(*M, &errs()))
        return 3;
    Dem.clear();
    Sq.clear();

    json::Array fns;
    for (auto *F : rootSet)
        fns.push_back(FnEmitter(*F).run());
    json::Array types;
    for (size_t k = 0; k < TyList.size(); k++)
        types.push_back(typeJson(TyList[k]));
    json::Array files;
    for (auto &f : Files)
        files.push_back(f);
    std::error_code ec;
    raw_fd_ostream os(Out, ec);
    if (ec)
        return 3;
    os << json::Value(json::Object{{"functions", std::move(fns)},
                                   {"types", std::move(types)},
                                   {"files", std::move(files)}});
    return 0;
}
