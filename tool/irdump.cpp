// irdump: link LLVM bitcode files, normalise, and dump facts as JSON for the
// Python rule engine.  No code of the analysed program is ever executed.
//
//   irdump -o OUT.json [--vocab FILE] [--max-inline N] IN.bc...
//
// Normalisation: mem2reg/SROA, simplifycfg, inlining of every function defined
// in the analysed sources that is not listed in the vocabulary file (so that a
// helper extracted from, or merged into, a function does not change the facts).
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout *DL;

// ---------------------------------------------------------------- tagging
// Struct types defined in a .c/.cpp file (not in a header) are qualified with
// the file's base name, since several files define same-named private structs.
static std::map<std::string, std::string> curQual;  // per module: name -> name@file
static std::string baseName(StringRef f) {
  size_t p = f.rfind('/');
  return (p == StringRef::npos ? f : f.substr(p + 1)).str();
}
static std::string qualName(const std::string &n, const DIFile *f) {
  if (!f) return n;
  StringRef fn = f->getFilename();
  if (fn.ends_with(".c") || fn.ends_with(".cpp")) return n + "@" + baseName(fn);
  return n;
}
static std::string llName(StructType *ST) {
  if (!ST->hasName()) return "";
  std::string n = ST->getName().str();
  for (const char *p : {"struct.", "class.", "union."})
    if (n.rfind(p, 0) == 0) { n = n.substr(strlen(p)); break; }
  if (n.find('<') == std::string::npos) {
    size_t q = n.rfind("::");
    if (q != std::string::npos) n = n.substr(q + 2);
  }
  auto it = curQual.find(n);
  return it == curQual.end() ? n : it->second;
}
static bool oneGep(GEPOperator *G, std::string &name, int64_t &off, bool &var, bool &firstZero) {
  auto *ST = dyn_cast<StructType>(G->getSourceElementType());
  if (!ST || !ST->hasName()) return false;
  name = llName(ST);
  off = 0;
  var = false;
  Type *T = ST;
  auto it = G->idx_begin();
  auto *C0 = dyn_cast<ConstantInt>(*it);
  firstZero = C0 && C0->isZero();
  ++it;
  for (; it != G->idx_end(); ++it) {
    if (auto *S = dyn_cast<StructType>(T)) {
      unsigned i = cast<ConstantInt>(*it)->getZExtValue();
      off += DL->getStructLayout(S)->getElementOffset(i);
      T = S->getElementType(i);
    } else if (auto *A = dyn_cast<ArrayType>(T)) {
      T = A->getElementType();
      if (auto *C = dyn_cast<ConstantInt>(*it))
        off += C->getSExtValue() * DL->getTypeAllocSize(T).getFixedValue();
      else
        var = true;
    } else
      return false;
  }
  return true;
}
// "outer+off|inner+off" for an address formed by a chain of struct GEPs
static std::string gepTag(Value *P) {
  auto *G = dyn_cast<GEPOperator>(P);
  if (!G) return "";
  std::string in;
  int64_t io;
  bool var, fz;
  if (!oneGep(G, in, io, var, fz)) {
    // array element inside a struct: [N x T], p, 0, i
    if (isa<ArrayType>(G->getSourceElementType())) {
      std::string b = gepTag(G->getPointerOperand());
      if (b.empty()) return "";
      APInt Off(64, 0);
      size_t bar = b.find('|');
      if (G->accumulateConstantOffset(*DL, Off) && Off == 0) return b;
      return b.substr(0, bar) + "[]" + b.substr(bar) + "[]";
    }
    return "";
  }
  std::string out = in;
  int64_t oo = io;
  bool ov = var;
  Value *B = G->getPointerOperand();
  bool zero = fz;
  while (zero) {
    auto *H = dyn_cast<GEPOperator>(B);
    if (!H) break;
    std::string n; int64_t o; bool v2, z2;
    if (!oneGep(H, n, o, v2, z2)) break;
    out = n; oo += o; ov |= v2; zero = z2;
    B = H->getPointerOperand();
  }
  return out + "+" + std::to_string(oo) + (ov ? "[]" : "") + "|" + in + "+" + std::to_string(io) + (var ? "[]" : "");
}

static void tagModule(Module &M) {
  LLVMContext &C = M.getContext();
  curQual.clear();
  DebugInfoFinder DF;
  DF.processModule(M);
  for (auto *T : DF.types()) {
    if (auto *CT = dyn_cast<DICompositeType>(T)) {
      if (CT->isForwardDecl()) continue;
      std::string n = CT->getName().str();
      if (!n.empty()) { auto q = qualName(n, CT->getFile()); if (q != n) curQual[n] = q; }
    } else if (auto *D = dyn_cast<DIDerivedType>(T))
      if (D->getTag() == dwarf::DW_TAG_typedef)
        if (auto *CT = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
          if (CT->getName().empty()) {
            std::string n = D->getName().str();
            auto q = qualName(n, D->getFile());
            if (q != n) curQual[n] = q;
          }
  }
  for (Function &F : M)
    for (Instruction &I : instructions(F)) {
      if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        std::string t = gepTag(G);
        if (!t.empty()) I.setMetadata("lcs.gtag", MDNode::get(C, {MDString::get(C, t)}));
      }
      std::vector<Value *> ps;
      if (auto *L = dyn_cast<LoadInst>(&I)) ps = {L->getPointerOperand()};
      else if (auto *S = dyn_cast<StoreInst>(&I)) ps = {S->getPointerOperand()};
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
        if (isa<DbgInfoIntrinsic>(CB)) continue;
        for (auto &A : CB->args()) ps.push_back(A.get());
      } else continue;
      std::vector<Metadata *> md;
      bool any = false;
      for (Value *p : ps) {
        std::string t = p->getType()->isPointerTy() ? gepTag(p) : "";
        if (!t.empty()) any = true;
        md.push_back(MDString::get(C, t));
      }
      if (any) I.setMetadata("lcs.tag", MDNode::get(C, md));
    }
}

// ---------------------------------------------------------------- DI types
static std::map<const DIType *, std::string> tyNames;
static std::map<std::string, const DICompositeType *> structs;
static std::vector<const DICompositeType *> pendingStructs;
static std::string tyStr(const DIType *T, int depth = 0) {
  if (!T) return "void";
  if (depth > 12) return "?";
  if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type:
    case dwarf::DW_TAG_reference_type:
    case dwarf::DW_TAG_rvalue_reference_type:
      return tyStr(D->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_typedef: {
      auto *B = D->getBaseType();
      if (auto *CT = dyn_cast_or_null<DICompositeType>(B))
        if (CT->getName().empty()) {
          std::string n = qualName(D->getName().str(), D->getFile());
          if (!structs.count(n)) { structs[n] = CT; pendingStructs.push_back(CT); tyNames[CT] = n; }
          return (CT->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ") + n;
        }
      return tyStr(B, depth + 1);
    }
    default:
      return tyStr(D->getBaseType(), depth + 1);
    }
  }
  if (auto *CT = dyn_cast<DICompositeType>(T)) {
    if (CT->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = tyStr(CT->getBaseType(), depth + 1);
      for (auto *E : CT->getElements())
        if (auto *R = dyn_cast<DISubrange>(E)) {
          auto c = R->getCount();
          int64_t n = -1;
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(c)) n = ci->getSExtValue();
          s += "[" + std::to_string(n) + "]";
        }
      return s;
    }
    std::string n = CT->getName().str();
    if (!n.empty()) n = qualName(n, CT->getFile());
    if (n.empty()) {
      auto it = tyNames.find(CT);
      if (it != tyNames.end()) n = it->second;
      else {
        n = "anon" + std::to_string(tyNames.size());
        tyNames[CT] = n;
      }
    }
    if (CT->getTag() == dwarf::DW_TAG_enumeration_type) {
      if (!structs.count(n)) { structs[n] = CT; }
      return "enum " + n;
    }
    auto it = structs.find(n);
    if (it == structs.end() || (it->second->isForwardDecl() && !CT->isForwardDecl())) {
      structs[n] = CT;
      pendingStructs.push_back(CT);
    }
    return "struct " + n;
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return "?";
}

static json::Object structJson(const DICompositeType *CT) {
  json::Object o;
  o["size"] = (int64_t)(CT->getSizeInBits() / 8);
  o["kind"] = CT->getTag() == dwarf::DW_TAG_union_type ? "union"
              : CT->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : "struct";
  json::Array ms;
  for (auto *E : CT->getElements()) {
    if (auto *En = dyn_cast<DIEnumerator>(E)) {
      ms.push_back(json::Array{En->getName(), En->getValue().getSExtValue(), "", 0});
      continue;
    }
    auto *D = dyn_cast<DIDerivedType>(E);
    if (!D || (D->getTag() != dwarf::DW_TAG_member && D->getTag() != dwarf::DW_TAG_inheritance)) continue;
    if (D->isStaticMember()) continue;
    json::Array m{D->getName(), (int64_t)(D->getOffsetInBits() / 8), tyStr(D->getBaseType()),
                  (int64_t)((D->getSizeInBits() + 7) / 8)};
    if (D->isBitField()) {m.push_back((int64_t)(D->getOffsetInBits() % 8)); m.push_back((int64_t)D->getSizeInBits());}
    ms.push_back(std::move(m));
  }
  o["members"] = std::move(ms);
  return o;
}

// ---------------------------------------------------------------- JSON dump
static std::string irTy(Type *T) {
  std::string s;
  raw_string_ostream os(s);
  if (auto *S = dyn_cast<StructType>(T))
    if (S->hasName()) return S->getName().str();
  T->print(os, false, true);
  return s;
}
static std::string relFile(StringRef dir, StringRef f) {
  std::string p = f.str();
  if (!f.starts_with("/")) p = dir.str() + "/" + p;
  // normalise /a/b/../c
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i);
    if (j == std::string::npos) j = p.size();
    std::string c = p.substr(i, j - i);
    if (c == ".." && !parts.empty()) parts.pop_back();
    else if (!c.empty() && c != ".") parts.push_back(c);
    i = j + 1;
  }
  std::string r;
  for (auto &c : parts) r += "/" + c;
  return r;
}

static std::string strOf(const Constant *C) {
  if (auto *G = dyn_cast<GlobalVariable>(C))
    if (G->hasInitializer() && G->isConstant())
      if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer()))
        if (D->isString()) {
          std::string s = D->getAsString().str();
          while (!s.empty() && s.back() == 0) s.pop_back();
          return s;
        }
  return "\x01";
}
static std::string utf8(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c < 0x80) o += c;
    else { o += (char)(0xC0 | (c >> 6)); o += (char)(0x80 | (c & 0x3F)); }
  }
  return o;
}

struct FnDumper {
  Function &F;
  std::map<const Value *, int> ids;
  FnDumper(Function &F) : F(F) {}
  json::Value opnd(const Value *V) {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      if (C->getBitWidth() <= 64) return json::Array{"i", C->getSExtValue(), (int64_t)C->getBitWidth()};
      return json::Array{"k", "bigint"};
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      double d = 0;
      APFloat f = C->getValueAPF();
      bool li;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      d = f.convertToDouble();
      char b[64];
      snprintf(b, 64, "%.17g", d);
      return json::Array{"f", std::string(b)};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"n"};
    if (isa<UndefValue>(V)) return json::Array{"u"};
    if (isa<ConstantAggregateZero>(V)) return json::Array{"z"};
    if (auto *Fn = dyn_cast<Function>(V)) return json::Array{"F", Fn->getName()};
    if (auto *G = dyn_cast<GlobalVariable>(V)) {
      std::string s = strOf(G);
      if (s != "\x01") return json::Array{"s", utf8(s), G->getName()};
      return json::Array{"g", G->getName()};
    }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      if (auto *GO = dyn_cast<GEPOperator>(CE)) {
        APInt Off(64, 0);
        if (GO->accumulateConstantOffset(*DL, Off)) {
          json::Value b = opnd(GO->getPointerOperand());
          if (Off == 0) return b;
          return json::Array{"o", b, Off.getSExtValue()};
        }
      }
      if (CE->isCast()) return opnd(CE->getOperand(0));
      return json::Array{"k", "cexpr"};
    }
    if (auto *M = dyn_cast<MetadataAsValue>(V)) { (void)M; return json::Array{"k", "md"}; }
    if (isa<InlineAsm>(V)) return json::Array{"k", "asm"};
    if (isa<BasicBlock>(V)) return json::Array{"k", "bb"};
    if (auto *A = dyn_cast<GlobalAlias>(V)) return opnd(A->getAliasee());
    return json::Array{"k", "?"};
  }
  json::Object run() {
    json::Object o;
    o["name"] = F.getName();
    o["internal"] = F.hasLocalLinkage();
    o["linkonce"] = F.hasLinkOnceLinkage() || F.hasWeakLinkage();
    o["addrtaken"] = F.hasAddressTaken();
    o["noreturn"] = F.doesNotReturn();
    if (auto *SP = F.getSubprogram()) {
      o["src"] = SP->getName();
      o["file"] = relFile(SP->getDirectory(), SP->getFilename());
      o["line"] = (int64_t)SP->getLine();
      json::Array tys;
      if (auto *ST = SP->getType())
        for (auto *T : ST->getTypeArray()) tys.push_back(tyStr(T));
      o["ditypes"] = std::move(tys);
    }
    int n = 0;
    json::Array args;
    for (auto &A : F.args()) {
      ids[&A] = n++;
      std::string s; raw_string_ostream os(s); A.getType()->print(os);
      args.push_back(json::Array{A.getName(), s, A.hasStructRetAttr(), A.hasByValAttr()});
    }
    o["args"] = std::move(args);
    { std::string s; raw_string_ostream os(s); F.getReturnType()->print(os); o["ret"] = s; }
    std::map<const BasicBlock *, int> bid;
    int nb = 0;
    for (auto &B : F) {
      bid[&B] = nb++;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        ids[&I] = n++;
      }
    }
    json::Array blocks;
    json::Array dbg;
    for (auto &B : F) {
      json::Array ins;
      for (auto &I : B) {
        if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
          if (isa<DbgValueInst>(DV) || isa<DbgDeclareInst>(DV)) {
            if (DV->getNumVariableLocationOps() == 1 && DV->getVariableLocationOp(0)) {
              auto it = ids.find(DV->getVariableLocationOp(0));
              if (it != ids.end() && DV->getExpression()->getNumElements() == 0)
                dbg.push_back(json::Array{it->second, DV->getVariable()->getName(),
                                          tyStr(DV->getVariable()->getType()),
                                          isa<DbgDeclareInst>(DV) ? 1 : 0});
            }
          }
          continue;
        }
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I))
          if (II->isLifetimeStartOrEnd()) { ins.push_back(json::Object{{"id", ids[&I]}, {"op", "nop"}}); continue; }
        json::Object j;
        j["id"] = ids[&I];
        j["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) {
          std::string s; raw_string_ostream os(s); I.getType()->print(os, false, true);
          j["ty"] = s;
        }
        json::Array ops;
        if (auto *P = dyn_cast<PHINode>(&I)) {
          json::Array inb;
          for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
            ops.push_back(opnd(P->getIncomingValue(k)));
            inb.push_back(bid[P->getIncomingBlock(k)]);
          }
          j["in"] = std::move(inb);
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) ops.push_back(opnd(Br->getCondition()));
          json::Array s;
          for (unsigned q = 0; q < Br->getNumSuccessors(); q++) s.push_back(bid[Br->getSuccessor(q)]);
          j["succ"] = std::move(s);
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          ops.push_back(opnd(Sw->getCondition()));
          json::Array s, cs;
          s.push_back(bid[Sw->getDefaultDest()]);
          for (auto &c : Sw->cases()) {
            cs.push_back(c.getCaseValue()->getSExtValue());
            s.push_back(bid[c.getCaseSuccessor()]);
          }
          j["cases"] = std::move(cs);
          j["succ"] = std::move(s);
        } else if (auto *CB = dyn_cast<CallBase>(&I)) {
          for (auto &A : CB->args()) ops.push_back(opnd(A.get()));
          const Value *cv = CB->getCalledOperand()->stripPointerCastsAndAliases();
          if (auto *Fn = dyn_cast<Function>(cv)) j["callee"] = Fn->getName();
          else if (isa<InlineAsm>(cv)) j["callee"] = "asm";
          else j["fp"] = opnd(CB->getCalledOperand());
          if (CB->doesNotReturn()) j["noreturn"] = true;
          if (auto *Inv = dyn_cast<InvokeInst>(&I))
            j["succ"] = json::Array{bid[Inv->getNormalDest()], bid[Inv->getUnwindDest()]};
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          ops.push_back(opnd(G->getPointerOperand()));
          j["src"] = irTy(G->getSourceElementType());
          unsigned BW = 64;
          MapVector<Value *, APInt> Var;
          APInt Off(BW, 0);
          if (G->collectOffset(*DL, BW, Var, Off)) {
            j["off"] = Off.getSExtValue();
            json::Array va;
            for (auto &p : Var) va.push_back(json::Array{opnd(p.first), p.second.getSExtValue()});
            if (!va.empty()) j["var"] = std::move(va);
          } else
            j["var"] = json::Array{json::Array{json::Array{"k", "?"}, 0}};
          if (auto *T = I.getMetadata("lcs.gtag")) j["gtag"] = cast<MDString>(T->getOperand(0))->getString();
        } else {
          for (auto &U : I.operands()) ops.push_back(opnd(U.get()));
          if (auto *C = dyn_cast<CmpInst>(&I)) j["pred"] = CmpInst::getPredicateName(C->getPredicate());
          if (auto *L = dyn_cast<LoadInst>(&I)) j["sz"] = (int64_t)DL->getTypeStoreSize(L->getType()).getFixedValue();
          if (auto *S = dyn_cast<StoreInst>(&I)) {
            j["sz"] = (int64_t)DL->getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
            std::string s; raw_string_ostream os(s); S->getValueOperand()->getType()->print(os, false, true);
            j["vty"] = s;
          }
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            j["aty"] = irTy(A->getAllocatedType());
            j["sz"] = (int64_t)DL->getTypeAllocSize(A->getAllocatedType()).getFixedValue();
          }
          if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
            json::Array ix; for (unsigned x : EV->indices()) ix.push_back((int64_t)x);
            j["idx"] = std::move(ix);
          }
        }
        if (!ops.empty()) j["o"] = std::move(ops);
        if (auto *T = I.getMetadata("lcs.tag")) {
          json::Array tg;
          for (auto &op : T->operands()) tg.push_back(cast<MDString>(op)->getString());
          j["tag"] = std::move(tg);
        }
        if (const DILocation *L = I.getDebugLoc().get()) {
          json::Array loc;
          for (const DILocation *l = L; l; l = l->getInlinedAt()) {
            auto *SP = l->getScope()->getSubprogram();
            loc.push_back(json::Array{(int64_t)l->getLine(), SP ? SP->getName() : "",
                                      relFile(l->getDirectory(), l->getFilename())});
          }
          j["loc"] = std::move(loc);
        }
        ins.push_back(std::move(j));
      }
      blocks.push_back(std::move(ins));
    }
    o["blocks"] = std::move(blocks);
    o["dbg"] = std::move(dbg);
    return o;
  }
};

static json::Value initJson(const Constant *C, int depth = 0) {
  if (depth > 6) return json::Array{"k", "deep"};
  if (auto *I = dyn_cast<ConstantInt>(C)) return json::Array{"i", I->getBitWidth() <= 64 ? I->getSExtValue() : 0, (int64_t)I->getBitWidth()};
  if (isa<ConstantPointerNull>(C)) return json::Array{"n"};
  if (isa<ConstantAggregateZero>(C)) return json::Array{"z"};
  if (isa<UndefValue>(C)) return json::Array{"u"};
  if (auto *F = dyn_cast<Function>(C)) return json::Array{"F", F->getName()};
  if (auto *G = dyn_cast<GlobalVariable>(C)) {
    std::string s = strOf(G);
    if (s != "\x01") return json::Array{"s", utf8(s), G->getName()};
    return json::Array{"g", G->getName()};
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->isString()) { std::string s = D->getAsString().str(); while (!s.empty() && s.back() == 0) s.pop_back(); return json::Array{"s", utf8(s), ""}; }
    json::Array a;
    for (unsigned i = 0; i < D->getNumElements() && i < 512; i++) a.push_back(initJson(D->getElementAsConstant(i), depth + 1));
    return json::Array{"a", std::move(a)};
  }
  if (isa<ConstantArray>(C) || isa<ConstantStruct>(C)) {
    json::Array a;
    for (unsigned i = 0; i < C->getNumOperands() && i < 512; i++) a.push_back(initJson(cast<Constant>(C->getOperand(i)), depth + 1));
    return json::Array{"a", std::move(a)};
  }
  if (auto *F = dyn_cast<ConstantFP>(C)) { (void)F; return json::Array{"f", "?"}; }
  return json::Array{"k", "?"};
}

// ---------------------------------------------------------------- pipeline
static bool isRepo(const Function &F, const std::string &root) {
  auto *SP = F.getSubprogram();
  if (!SP) return false;
  return relFile(SP->getDirectory(), SP->getFilename()).rfind(root, 0) == 0;
}

int main(int argc, char **argv) {
  std::string out, vocabFile, root = "/repo/";
  unsigned maxInline = 400;
  std::vector<std::string> in;
  bool noInline = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") out = argv[++i];
    else if (a == "--vocab") vocabFile = argv[++i];
    else if (a == "--root") root = argv[++i];
    else if (a == "--max-inline") maxInline = atoi(argv[++i]);
    else if (a == "--no-inline") noInline = true;
    else in.push_back(a);
  }
  std::set<std::string> vocab;
  std::vector<std::regex> vocabRe;
  if (!vocabFile.empty()) {
    std::ifstream f(vocabFile);
    std::string l;
    while (std::getline(f, l)) {
      size_t h = l.find('#');
      if (h != std::string::npos) l = l.substr(0, h);
      while (!l.empty() && isspace(l.back())) l.pop_back();
      if (l.rfind("re:", 0) == 0) vocabRe.push_back(std::regex(l.substr(3)));
      else if (!l.empty()) vocab.insert(l);
    }
  }
  LLVMContext C;
  SMDiagnostic Err;
  std::unique_ptr<Module> M;
  for (auto &f : in) {
    auto m = parseIRFile(f, Err, C);
    if (!m) { Err.print("irdump", errs()); return 2; }
    DL = &m->getDataLayout();
    tagModule(*m);
    if (!M) { M = std::move(m); continue; }
    if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed at " << f << "\n"; return 2; }
  }
  DL = &M->getDataLayout();

  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  auto runPipe = [&](const char *p) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, p)) { errs() << toString(std::move(e)) << "\n"; exit(2); }
    MPM.run(*M, MAM);
  };
  // `return` inside a nested scope leaves a switch on a merged constant (cleanup
  // destination); such merges only blur which path was taken: thread them
  auto thread = [&]() {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      bool hit = false;
      for (auto &B : F)
        if (auto *S = dyn_cast<SwitchInst>(B.getTerminator()))
          if (auto *P = dyn_cast<PHINode>(S->getCondition()))
            if (P->getParent() == &B)
              for (auto &U : P->incoming_values()) if (isa<ConstantInt>(U)) hit = true;
      if (!hit) continue;
      FunctionPassManager FPM;
      if (auto e = PB.parsePassPipeline(FPM, "jump-threading,simplifycfg")) { errs() << toString(std::move(e)) << "\n"; exit(2); }
      FPM.run(F, FAM);
    }
    MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
  };
  runPipe("function(lower-expect,sroa,simplifycfg)");
  thread();

  // address taken for the record (before inlining removes uses)
  std::set<std::string> addrTaken;
  for (auto &F : *M) if (F.hasAddressTaken()) addrTaken.insert(F.getName().str());

  if (!noInline) {
    // bottom-up inlining of non-vocabulary functions of the analysed sources
    auto canInline = [&](Function *G) {
      if (!G || G->isDeclaration() || G->isVarArg()) return false;
      std::string n = G->getName().str();
      std::string base = n.substr(0, n.find('.'));
      if (vocab.count(n) || vocab.count(base)) return false;
      if (auto *SP = G->getSubprogram()) {
        if (vocab.count(SP->getName().str())) return false;
        for (auto &r : vocabRe) if (std::regex_match(SP->getName().str(), r)) return false;
      }
      if (G->hasFnAttribute(Attribute::NoReturn)) return false;
      if (!isRepo(*G, root)) return false;
      if (G->hasPersonalityFn()) return false;
      return G->getInstructionCount() <= maxInline;
    };
    // iterate callee-first using simple DFS order; recursion guarded by stack
    std::vector<Function *> order;
    std::set<Function *> vis, onst;
    std::map<Function *, std::set<Function *>> callees;
    std::set<Function *> recursive;
    for (auto &F : *M)
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *G = CB->getCalledFunction()) if (!G->isDeclaration()) callees[&F].insert(G);
    std::function<void(Function *)> dfs = [&](Function *F) {
      if (vis.count(F)) return;
      vis.insert(F); onst.insert(F);
      for (auto *G : callees[F]) { if (onst.count(G)) recursive.insert(G); else dfs(G); }
      onst.erase(F);
      order.push_back(F);
    };
    for (auto &F : *M) if (!F.isDeclaration()) dfs(&F);
    for (auto *F : order) {
      bool changed = true;
      int rounds = 0;
      while (changed && rounds++ < 3) {
        changed = false;
        std::vector<CallBase *> sites;
        for (auto &I : instructions(*F))
          if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *G = CB->getCalledFunction();
            if (G && G != F && !recursive.count(G) && canInline(G)) sites.push_back(CB);
          }
        for (auto *CB : sites) {
          InlineFunctionInfo IFI;
          if (F->getInstructionCount() > 20000) break;
          CB->removeFnAttr(Attribute::NoInline);
          if (InlineFunction(*CB, IFI).isSuccess()) changed = true;
        }
      }
    }
    MAM.clear(); FAM.clear(); CGAM.clear(); LAM.clear();
    runPipe("function(sroa,simplifycfg)");
    thread();
  }
  // strip unreachable (function-local)
  if (verifyModule(*M, &errs())) { errs() << "verify failed\n"; return 2; }

  std::error_code EC;
  raw_fd_ostream os(out, EC);
  json::Object top;
  json::Array fns;
  json::Array decls;
  for (auto &F : *M) {
    if (F.isDeclaration()) { if (!F.isIntrinsic()) decls.push_back(json::Array{F.getName(), F.doesNotReturn()}); continue; }
    if (!isRepo(F, root) && !F.getSubprogram() && F.getName().starts_with("_GLOBAL_")) {}
    else if (!isRepo(F, root)) { decls.push_back(json::Array{F.getName(), F.doesNotReturn()}); continue; }
    FnDumper d(F);
    auto o = d.run();
    o["addrtaken"] = addrTaken.count(F.getName().str()) > 0;
    fns.push_back(std::move(o));
  }
  top["functions"] = std::move(fns);
  top["decls"] = std::move(decls);
  json::Array gl;
  for (auto &G : M->globals()) {
    json::Object g;
    g["name"] = G.getName();
    g["const"] = G.isConstant();
    g["tls"] = G.isThreadLocal();
    g["decl"] = G.isDeclaration();
    g["internal"] = G.hasLocalLinkage();
    SmallVector<DIGlobalVariableExpression *, 1> es;
    G.getDebugInfo(es);
    if (!es.empty()) {
      auto *v = es[0]->getVariable();
      g["src"] = v->getName();
      g["file"] = relFile(v->getDirectory(), v->getFilename());
      g["line"] = (int64_t)v->getLine();
      g["type"] = tyStr(v->getType());
      if (auto *S = dyn_cast_or_null<DILocalScope>(v->getScope())) if (S->getSubprogram()) g["infn"] = S->getSubprogram()->getName();
    }
    if (G.hasInitializer()) g["init"] = initJson(G.getInitializer());
    gl.push_back(std::move(g));
  }
  top["globals"] = std::move(gl);
  // all named struct types reachable, plus every composite in the debug info
  DebugInfoFinder DF;
  DF.processModule(*M);
  for (auto *T : DF.types()) tyStr(T);
  json::Object sj;
  std::set<const DICompositeType *> done;
  // members may reference further structs; iterate to a fixpoint
  bool more = true;
  std::set<std::string> emitted;
  while (more) {
    more = false;
    std::vector<std::pair<std::string, const DICompositeType *>> cur(structs.begin(), structs.end());
    for (auto &p : cur)
      if (emitted.insert(p.first).second) { sj[p.first] = structJson(p.second); more = true; }
    for (auto &p : std::map<const DIType *, std::string>(tyNames)) {
      if (auto *CT = dyn_cast<DICompositeType>(p.first))
        if (emitted.insert(p.second).second) { sj[p.second] = structJson(CT); more = true; }
    }
  }
  top["structs"] = std::move(sj);
  os << json::Value(std::move(top));
  return 0;
}
