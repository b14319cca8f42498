// k52ir: flattens selected functions of a linked LLVM module (selective inlining of the
// repository's own functions, SSA promotion, canonicalisation) and dumps them, with
// resolved virtual call targets, exception edges, class layouts and type_info bases, as JSON.
#include "llvm/ADT/StringSet.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/FunctionAttrs.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <map>
#include <set>
#include <functional>
using namespace llvm;

static std::string RepoRoot = "/repo/";

static std::string dem(StringRef n) {
  static std::map<std::string, std::string> memo;
  auto it = memo.find(n.str());
  if (it != memo.end()) return it->second;
  std::string d = demangle(n.str());
  return memo[n.str()] = d;
}

static bool isRepoFile(const DIScope *S) {
  if (!S || !S->getFile()) return false;
  std::string p = S->getFilename().str();
  if (!p.empty() && p[0] != '/') p = S->getDirectory().str() + "/" + p;
  return p.rfind(RepoRoot, 0) == 0;
}

static bool isRepoPath(const DIFile *F) {
  if (!F) return false;
  std::string p = F->getFilename().str();
  if (!p.empty() && p[0] != '/') p = F->getDirectory().str() + "/" + p;
  return p.rfind(RepoRoot, 0) == 0;
}

static bool isRepoFn(const Function &F) {
  StringRef n = F.getName();
  // k52-scoped mangled names: _ZN[K][R][O]3k52...
  if (n.starts_with("_ZN")) {
    StringRef r = n.drop_front(3);
    while (!r.empty() && (r[0] == 'K' || r[0] == 'V' || r[0] == 'R' || r[0] == 'O')) r = r.drop_front(1);
    if (r.starts_with("3k52")) return true;
  }
  if (auto *SP = F.getSubprogram()) return isRepoFile(SP);
  return false;
}

// ---- virtual calls -------------------------------------------------------------------------
struct VSlot { std::string impl; };
static std::map<std::string, std::vector<std::pair<GlobalVariable *, uint64_t>>> TypeIdVTables; // typeid -> (vtable, addr point)

static void collectVTables(Module &M) {
  for (auto &G : M.globals()) {
    SmallVector<MDNode *, 4> MDs;
    G.getMetadata(LLVMContext::MD_type, MDs);
    for (auto *N : MDs) {
      auto *Off = mdconst::dyn_extract<ConstantInt>(N->getOperand(0));
      auto *Id = dyn_cast<MDString>(N->getOperand(1));
      if (!Off || !Id) continue;
      TypeIdVTables[Id->getString().str()].push_back({&G, Off->getZExtValue()});
    }
  }
}

static Function *vtableEntry(GlobalVariable *G, uint64_t off) {
  if (!G->hasInitializer()) return nullptr;
  Constant *C = G->getInitializer();
  // struct of arrays of ptr
  uint64_t pos = 0;
  std::function<Constant *(Constant *)> find = [&](Constant *K) -> Constant * {
    if (isa<ConstantStruct>(K) || isa<ConstantArray>(K)) {
      for (unsigned i = 0; i < K->getNumOperands(); ++i)
        if (auto *R = find(cast<Constant>(K->getOperand(i)))) return R;
      return nullptr;
    }
    if (auto *Z = dyn_cast<ConstantAggregateZero>(K)) {
      pos += 8 * Z->getElementCount().getFixedValue();
      return nullptr;
    }
    if (pos == off) return K;
    pos += 8;
    return nullptr;
  };
  Constant *R = find(C);
  if (!R) return nullptr;
  return dyn_cast<Function>(R->stripPointerCasts());
}

// Annotations computed on the pristine module and carried as function-call metadata "k52.v"
static void annotateVirtual(Module &M) {
  LLVMContext &C = M.getContext();
  for (auto &F : M)
    for (auto &I : instructions(F)) {
      auto *CB = dyn_cast<CallBase>(&I);
      if (!CB || CB->getCalledFunction() || CB->isInlineAsm()) continue;
      Value *FP = CB->getCalledOperand();
      auto *L = dyn_cast<LoadInst>(FP);
      if (!L) continue;
      Value *P = L->getPointerOperand();
      uint64_t off = 0;
      if (auto *G = dyn_cast<GEPOperator>(P)) {
        APInt o(64, 0);
        if (!G->accumulateConstantOffset(M.getDataLayout(), o)) continue;
        off = o.getZExtValue();
        P = G->getPointerOperand();
      }
      // P = vtable value; look for type.test use
      std::string tid;
      for (auto *U : P->users())
        if (auto *CI = dyn_cast<CallInst>(U))
          if (auto *CF = CI->getCalledFunction())
            if (CF->getName() == "llvm.public.type.test" || CF->getName() == "llvm.type.test")
              if (auto *MV = dyn_cast<MetadataAsValue>(CI->getArgOperand(1)))
                if (auto *S = dyn_cast<MDString>(MV->getMetadata())) tid = S->getString().str();
      if (tid.empty()) continue;
      std::string ops = tid + "," + std::to_string(off / 8);
      std::set<std::string> seen;
      for (auto &vt : TypeIdVTables[tid])
        if (Function *T = vtableEntry(vt.first, vt.second + off))
          if (seen.insert(T->getName().str()).second) ops += "," + T->getName().str();
      CB->addFnAttr(Attribute::get(C, "k52.v", ops));
    }
}

static void dropTypeTests(Module &M) {
  for (auto &F : M) {
    std::vector<Instruction *> kill;
    for (auto &I : instructions(F))
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (auto *CF = CI->getCalledFunction()) {
          if (CF->getName() == "llvm.public.type.test" || CF->getName() == "llvm.type.test") {
            CI->replaceAllUsesWith(ConstantInt::getTrue(M.getContext()));
            kill.push_back(CI);
          }
        }
    for (auto *I : kill) I->eraseFromParent();
    kill.clear();
    for (auto &I : instructions(F))
      if (auto *CI = dyn_cast<CallInst>(&I))
        if (auto *CF = CI->getCalledFunction())
          if (CF->getName() == "llvm.assume") kill.push_back(CI);
    for (auto *I : kill) I->eraseFromParent();
  }
}

// ---- JSON dump -----------------------------------------------------------------------------
struct Dumper {
  json::OStream &J;
  Module &M;
  const DataLayout &DL;
  std::set<std::string> names;
  std::map<std::string, const DICompositeType *> classes;
  Dumper(json::OStream &J, Module &M) : J(J), M(M), DL(M.getDataLayout()) {}

  // classes defined in one unit only (those with a key function) carry no identifier: rebuild it
  static std::string identifier(const DICompositeType *C) {
    if (C->getIdentifier().size()) return C->getIdentifier().str();
    if (C->getName().empty() || C->getName().contains('<')) return "";
    std::string r = std::to_string(C->getName().size()) + C->getName().str();
    bool k52 = false;
    for (const DIScope *S = C->getScope(); S && !isa<DIFile>(S); S = S->getScope()) {
      if (!isa<DINamespace>(S) && !isa<DICompositeType>(S)) return "";
      StringRef n = S->getName();
      if (n.empty() || n.contains('<')) return "";
      k52 = n == "k52";
      r = std::to_string(n.size()) + n.str() + r;
    }
    return k52 ? "_ZTSN" + r + "E" : "";
  }

  // declared const (looking through typedefs and array types)
  static bool diConst(const DIType *T) {
    while (T) {
      if (T->getTag() == dwarf::DW_TAG_const_type) return true;
      if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() != dwarf::DW_TAG_array_type) return false;
        T = C->getBaseType();
        continue;
      }
      auto *D = dyn_cast<DIDerivedType>(T);
      if (!D || (D->getTag() != dwarf::DW_TAG_typedef && D->getTag() != dwarf::DW_TAG_volatile_type)) return false;
      T = D->getBaseType();
    }
    return false;
  }

  std::string diTypeName(const DIType *T) {
    if (!T) return "void";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
      switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType()) + "*";
      case dwarf::DW_TAG_reference_type:
      case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(D->getBaseType()) + "&";
      case dwarf::DW_TAG_const_type: {
        std::string b = diTypeName(D->getBaseType());
        return b;
      }
      default: return diTypeName(D->getBaseType());
      }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
      std::string id = identifier(C);
      if (id.size()) {
        if (!C->isForwardDecl() || !classes.count(id)) {
          auto &slot = classes[id];
          if (!slot || slot->isForwardDecl()) slot = C;
        }
        return id;
      }
      return C->getName().str();
    }
    if (isa<DISubroutineType>(T)) return "fn";
    return T->getName().str();
  }

  std::string opnd(Value *V, std::map<Value *, std::string> &ids) {
    auto it = ids.find(V);
    if (it != ids.end()) return it->second;
    if (auto *CI = dyn_cast<ConstantInt>(V)) {
      if (CI->getBitWidth() <= 64) return "#" + std::to_string(CI->getSExtValue());
      return "#big";
    }
    if (auto *CF = dyn_cast<ConstantFP>(V)) {
      SmallString<32> s; CF->getValueAPF().toString(s);
      return "#f" + s.str().str();
    }
    if (isa<ConstantPointerNull>(V)) return "null";
    if (isa<UndefValue>(V)) return "undef";
    if (auto *G = dyn_cast<GlobalValue>(V)) { names.insert(G->getName().str()); return "@" + G->getName().str(); }
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
      APInt o(64, 0);
      Value *B = CE->stripAndAccumulateConstantOffsets(DL, o, true);
      if (auto *G = dyn_cast<GlobalValue>(B)) {
        names.insert(G->getName().str());
        return "@" + G->getName().str() + (o.getSExtValue() ? "+" + std::to_string(o.getSExtValue()) : "");
      }
      return "constexpr";
    }
    if (isa<ConstantAggregateZero>(V)) return "zeroinit";
    if (isa<Constant>(V)) return "const";
    if (isa<MetadataAsValue>(V)) return "md";
    return "?";
  }

  std::string locOf(const DebugLoc &L) {
    if (!L) return "";
    auto *S = cast<DIScope>(L->getScope());
    std::string p = S->getFilename().str();
    if (!p.empty() && p[0] != '/') p = S->getDirectory().str() + "/" + p;
    if (p.rfind(RepoRoot, 0) == 0) p = p.substr(RepoRoot.size());
    return p + ":" + std::to_string(L->getLine());
  }
  std::string ty(Type *T) { std::string s; raw_string_ostream o(s); T->print(o); return o.str(); }

  void dumpFn(Function &F, StringRef asName) {
    std::map<Value *, std::string> ids;
    int n = 0;
    for (auto &A : F.args()) ids[&A] = "a" + std::to_string(A.getArgNo());
    std::map<BasicBlock *, int> bb;
    for (auto &B : F) {
      int k = bb.size(); bb[&B] = k;
      for (auto &I : B) { if (isa<DbgInfoIntrinsic>(I)) continue; ids[&I] = "%" + std::to_string(n++); }
    }
    // debug variables
    std::map<Value *, std::pair<std::string, std::string>> vars;
    for (auto &I : instructions(F))
      if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I))
        if (D->getNumVariableLocationOps() == 1)
          if (Value *V = D->getVariableLocationOp(0))
            if (!vars.count(V) && !isa<Constant>(V) && D->getVariable())
              vars[V] = {D->getVariable()->getName().str(), diTypeName(D->getVariable()->getType())};
    J.object([&] {
      J.attribute("name", asName);
      names.insert(asName.str());
      J.attribute("ret", ty(F.getReturnType()));
      J.attribute("nounwind", F.doesNotThrow());
      J.attribute("readonly", F.onlyReadsMemory());
      if (auto *SP = F.getSubprogram()) {
        std::string p = SP->getFilename().str();
        if (!p.empty() && p[0] != '/') p = SP->getDirectory().str() + "/" + p;
        if (p.rfind(RepoRoot, 0) == 0) p = p.substr(RepoRoot.size());
        J.attribute("file", p);
        J.attribute("line", (int64_t)SP->getLine());
        J.attributeArray("ptypes", [&] {
          if (auto *T = SP->getType())
            for (auto *E : T->getTypeArray()) J.value(diTypeName(E));
        });
      }
      J.attributeArray("args", [&] {
        for (auto &A : F.args()) J.object([&] {
          J.attribute("t", ty(A.getType()));
          if (A.hasStructRetAttr()) J.attribute("sret", true);
          if (vars.count(&A)) { J.attribute("n", vars[&A].first); J.attribute("dt", vars[&A].second); }
        });
      });
      J.attributeArray("blocks", [&] {
        for (auto &B : F) J.array([&] {
          for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            J.object([&] {
              J.attribute("i", ids[&I]);
              J.attribute("o", I.getOpcodeName());
              std::string l = locOf(I.getDebugLoc());
              if (!l.empty()) {
                J.attribute("l", l);
                if (auto *SP = I.getDebugLoc()->getScope()->getSubprogram()) {
                  J.attribute("s", SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName());
                  names.insert((SP->getLinkageName().empty() ? SP->getName() : SP->getLinkageName()).str());
                }
                if (auto *IA = I.getDebugLoc()->getInlinedAt()) {
                  std::string c;
                  for (; IA; IA = IA->getInlinedAt()) c += (c.empty() ? "" : " < ") + locOf(DebugLoc(IA));
                  J.attribute("c", c);
                }
              }
              if (vars.count(&I)) { J.attribute("n", vars[&I].first); J.attribute("dt", vars[&I].second); }
              if (!I.getType()->isVoidTy()) J.attribute("t", ty(I.getType()));
              if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (auto *CF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
                  J.attribute("f", CF->getName()); names.insert(CF->getName().str());
                } else if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) {
                  StringRef nm = GA->getAliaseeObject() ? GA->getAliaseeObject()->getName() : GA->getName();
                  J.attribute("f", nm); names.insert(nm.str());
                } else J.attribute("fp", opnd(CB->getCalledOperand(), ids));
                if (CB->hasFnAttr("k52.v")) {
                  SmallVector<StringRef, 8> parts;
                  CB->getFnAttr("k52.v").getValueAsString().split(parts, ',');
                  J.attributeArray("v", [&] { for (auto p : parts) { J.value(p); names.insert(p.str()); } });
                }
                J.attributeArray("a", [&] { for (auto &A : CB->args()) J.value(opnd(A, ids)); });
                if (CB->doesNotThrow()) J.attribute("nt", true);
                if (CB->arg_size() && CB->paramHasAttr(0, Attribute::StructRet)) J.attribute("sr", true);
                for (Value *A : CB->args())      // pointers to member functions
                  if (auto *CE = dyn_cast<ConstantExpr>(A))
                    if (CE->getOpcode() == Instruction::PtrToInt)
                      if (auto *PF = dyn_cast<Function>(CE->getOperand(0)->stripPointerCasts())) { names.insert(PF->getName().str()); J.attribute("pm", PF->getName()); break; }
                if (CB->onlyReadsMemory()) J.attribute("ro", true);
                if (auto *IV = dyn_cast<InvokeInst>(&I)) {
                  J.attribute("nb", bb[IV->getNormalDest()]);
                  J.attribute("ub", bb[IV->getUnwindDest()]);
                }
              } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                MapVector<Value *, APInt> vo; APInt co(64, 0);
                bool ok = G->collectOffset(DL, 64, vo, co);
                J.attribute("p", opnd(G->getPointerOperand(), ids));
                if (ok) {
                  J.attribute("off", co.getSExtValue());
                  if (!vo.empty()) J.attributeArray("vo", [&] {
                    for (auto &kv : vo) J.array([&] { J.value(opnd(kv.first, ids)); J.value(kv.second.getSExtValue()); });
                  });
                }
              } else if (auto *P = dyn_cast<PHINode>(&I)) {
                J.attributeArray("a", [&] {
                  for (unsigned k = 0; k < P->getNumIncomingValues(); ++k)
                    J.array([&] { J.value(bb[P->getIncomingBlock(k)]); J.value(opnd(P->getIncomingValue(k), ids)); });
                });
              } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                if (Br->isConditional()) J.attribute("cond", opnd(Br->getCondition(), ids));
                J.attributeArray("succ", [&] { for (auto *S : successors(&B)) J.value(bb[S]); });
              } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                J.attribute("cond", opnd(Sw->getCondition(), ids));
                J.attribute("def", bb[Sw->getDefaultDest()]);
                J.attributeArray("cases", [&] {
                  for (auto &c : Sw->cases()) J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(bb[c.getCaseSuccessor()]); });
                });
              } else if (auto *LP = dyn_cast<LandingPadInst>(&I)) {
                J.attribute("cleanup", LP->isCleanup());
                J.attributeArray("clauses", [&] {
                  for (unsigned k = 0; k < LP->getNumClauses(); ++k)
                    J.value((LP->isCatch(k) ? "catch " : "filter ") + opnd(LP->getClause(k), ids));
                });
              } else {
                if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()));
                if (auto *A = dyn_cast<AllocaInst>(&I)) {
                  auto sz = A->getAllocationSize(DL);
                  if (sz) J.attribute("size", (int64_t)sz->getFixedValue());
                }
                if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attribute("idx", (int64_t)E->getIndices()[0]);
                if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attribute("idx", (int64_t)E->getIndices()[0]);
                J.attributeArray("a", [&] { for (auto &O : I.operands()) J.value(opnd(O, ids)); });
              }
            });
          }
        });
      });
    });
  }

  void dumpClasses() {
    // transitively close over member / base types
    std::set<std::string> done;
    J.attributeObject("classes", [&] {
      bool again = true;
      while (again) {
        again = false;
        std::vector<std::pair<std::string, const DICompositeType *>> todo(classes.begin(), classes.end());
        for (auto &kv : todo) {
          if (!done.insert(kv.first).second) continue;
          again = true;
          auto *C = kv.second;
          J.attributeObject(kv.first, [&] {
            J.attribute("name", dem("_ZTS" + kv.first.substr(4)).size() > 18 && kv.first.rfind("_ZTS", 0) == 0
                                    ? dem(kv.first).substr(18) : kv.first);
            J.attribute("size", (int64_t)C->getSizeInBits() / 8);
            if (C->getFile()) {
              std::string p = C->getFilename().str();
              if (!p.empty() && p[0] != '/') p = C->getDirectory().str() + "/" + p;
              if (p.rfind(RepoRoot, 0) == 0) J.attribute("file", p.substr(RepoRoot.size()));
            }
            J.attribute("fwd", C->isForwardDecl());
            J.attribute("enum", C->getTag() == dwarf::DW_TAG_enumeration_type);
            J.attributeArray("elems", [&] {
              for (auto *E : C->getElements()) {
                if (auto *D = dyn_cast<DIDerivedType>(E)) {
                  if (D->isStaticMember()) continue;
                  if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
                    J.object([&] {
                      J.attribute("k", D->getTag() == dwarf::DW_TAG_member ? "m" : "b");
                      J.attribute("n", D->getName());
                      J.attribute("off", (int64_t)D->getOffsetInBits() / 8);
                      J.attribute("size", (int64_t)D->getSizeInBits() / 8);
                      J.attribute("virt", bool(D->getFlags() & DINode::FlagVirtual));
                      J.attribute("art", D->isArtificial());
                      J.attribute("t", diTypeName(D->getBaseType()));
                    });
                } else if (auto *En = dyn_cast<DIEnumerator>(E)) {
                  J.object([&] { J.attribute("k", "e"); J.attribute("n", En->getName()); J.attribute("v", En->getValue().getSExtValue()); });
                } else if (auto *SP = dyn_cast<DISubprogram>(E)) {
                  J.object([&] {
                    J.attribute("k", "f"); J.attribute("n", SP->getName()); J.attribute("ln", SP->getLinkageName());
                    J.attribute("acc", SP->isPrivate() ? "private" : SP->isProtected() ? "protected" : SP->isPublic() ? "public"
                                         : C->getTag() == dwarf::DW_TAG_class_type ? "private" : "public");
                    J.attribute("deleted", SP->isDeleted());
                    J.attribute("virt", SP->getVirtuality() != 0);
                    if (SP->getVirtuality()) J.attribute("vidx", (int64_t)SP->getVirtualIndex());
                    J.attribute("pure", SP->getVirtuality() == dwarf::DW_VIRTUALITY_pure_virtual);
                    J.attributeArray("ptypes", [&] { if (auto *T = SP->getType()) for (auto *X : T->getTypeArray()) J.value(diTypeName(X)); });
                  });
                }
              }
            });
          });
        }
      }
    });
  }
};

static bool matchAny(const std::vector<Regex> &rs, StringRef s) {
  for (auto &r : rs) if (r.match(s)) return true;
  return false;
}

static std::vector<Regex> regs(const json::Object &o, StringRef k) {
  std::vector<Regex> r;
  if (auto *A = o.getArray(k))
    for (auto &v : *A) if (auto s = v.getAsString()) r.emplace_back(*s);
  return r;
}

int main(int argc, char **argv) {
  // k52ir module.bc jobs.json out.json [repo-root]  (extra arguments are ignored)
  if (argc < 4) return 2;
  if (argc > 4) RepoRoot = std::string(argv[4]) + "/";
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  auto Buf = MemoryBuffer::getFile(argv[2]);
  if (!Buf) { errs() << "cannot read jobs\n"; return 2; }
  auto Jobs = json::parse((*Buf)->getBuffer());
  if (!Jobs) { errs() << "bad jobs: " << toString(Jobs.takeError()) << "\n"; return 2; }

  // complete-object structors are often aliases of the base-object ones: use the real function
  for (auto &GA : M->aliases())
    if (auto *T = dyn_cast_or_null<Function>(GA.getAliaseeObject())) GA.replaceAllUsesWith(T);
  collectVTables(*M);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  annotateVirtual(*M);
  dropTypeTests(*M);
  auto cleanup = [&]() {
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(EarlyCSEPass(false));
    FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().setSimplifyCondBranch(true).speculateBlocks(false)));
    FPM.addPass(ADCEPass());
    return FPM;
  };
  {
    ModulePassManager MPM;
    MPM.addPass(createModuleToFunctionPassAdaptor(cleanup()));
    MPM.addPass(createModuleToPostOrderCGSCCPassAdaptor(PostOrderFunctionAttrsPass()));
    MPM.run(*M, MAM);
  }
  // which non-repo functions reach a lambda / functor body defined in the repo through non-repo code only
  std::set<Function *> repo, reachesLambda;
  for (auto &F : *M) if (!F.isDeclaration() && isRepoFn(F)) repo.insert(&F);
  auto isLambda = [&](Function *F) { return repo.count(F) && dem(F->getName()).find("'lambda") != std::string::npos; };
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : *M) {
      if (F.isDeclaration() || repo.count(&F) || reachesLambda.count(&F)) continue;
      for (auto &I : instructions(F))
        if (auto *CB = dyn_cast<CallBase>(&I))
          if (auto *C = CB->getCalledFunction())
            if (isLambda(C) || reachesLambda.count(C)) { reachesLambda.insert(&F); ch = true; goto next; }
    next:;
    }
  }

  std::error_code EC;
  raw_fd_ostream OS(argv[3], EC);
  json::OStream J(OS);
  J.objectBegin();
  Dumper D(J, *M);
  J.attributeBegin("jobs");
  J.objectBegin();
  for (auto &jv : *Jobs->getAsArray()) {
    auto &jo = *jv.getAsObject();
    auto roots = regs(jo, "roots"), opaque = regs(jo, "opaque"), extra = regs(jo, "inline"), notroots = regs(jo, "notroots");
    bool inl = jo.getBoolean("flatten").value_or(true);
    bool norm = jo.getBoolean("norm").value_or(true);
    J.attributeBegin(*jo.getString("id"));
    J.arrayBegin();
    std::vector<Function *> rs;
    for (auto &F : *M) {
      if (F.isDeclaration() || F.getName().starts_with("k52flat.")) continue;
      // complete-object structors duplicate the base-object ones
      std::string d = dem(F.getName());
      if (matchAny(roots, d) && !matchAny(notroots, d)) {
        if (!repo.count(&F) && !jo.getBoolean("any").value_or(false)) continue;
        rs.push_back(&F);
      }
    }
    for (Function *R : rs) {
      ValueToValueMapTy VM;
      Function *C = CloneFunction(R, VM);
      C->setName("k52flat." + R->getName());
      int budget = 4000;
      if (inl) {
        std::vector<std::pair<CallBase *, std::vector<Function *>>> work;
        auto scan = [&](Function *Fn) {
          std::vector<CallBase *> v;
          for (auto &I : instructions(*Fn)) if (auto *CB = dyn_cast<CallBase>(&I)) v.push_back(CB);
          return v;
        };
        for (auto *CB : scan(C)) work.push_back({CB, {R}});
        while (!work.empty() && budget-- > 0) {
          auto [CB, chain] = work.back(); work.pop_back();
          auto *T = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
          if (!T) if (auto *GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) T = dyn_cast_or_null<Function>(GA->getAliaseeObject());
          if (!T || T->isDeclaration() || T->isVarArg()) continue;
          std::string d = dem(T->getName());
          bool want = (repo.count(T) && !matchAny(opaque, d)) || reachesLambda.count(T) || matchAny(extra, d);
          if (!want) continue;
          if (std::find(chain.begin(), chain.end(), T) != chain.end() || chain.size() > 24) continue;
          InlineFunctionInfo IFI;
          auto res = InlineFunction(*CB, IFI, false, nullptr, false);
          if (!res.isSuccess()) continue;
          auto ch2 = chain; ch2.push_back(T);
          for (auto *N : IFI.InlinedCallSites) work.push_back({N, ch2});
        }
        if (budget <= 0) errs() << "inline budget exhausted in " << dem(R->getName()) << "\n";
      }
      {
        FunctionPassManager FPM = cleanup();
        if (norm) {
          FPM.addPass(InstCombinePass());
          FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
          FPM.addPass(EarlyCSEPass(true));
          FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().speculateBlocks(false)));
          FPM.addPass(LoopSimplifyPass());
          FPM.addPass(ADCEPass());
        }
        FPM.run(*C, FAM);
      }
      removeUnreachableBlocks(*C);
      D.dumpFn(*C, R->getName());
      FAM.clear(*C, C->getName());
      C->eraseFromParent();
    }
    J.arrayEnd();
    J.attributeEnd();
  }
  J.objectEnd();
  J.attributeEnd();
  // module facts
  J.attributeObject("typeinfo", [&] {
    for (auto &G : M->globals()) {
      if (!G.getName().starts_with("_ZTI")) continue;
      J.attributeArray(G.getName(), [&] {
        if (G.hasInitializer())
          for (unsigned k = 0, n = G.getInitializer()->getNumOperands(); k < n; ++k)
            if (auto *B = dyn_cast<GlobalVariable>(cast<Constant>(G.getInitializer()->getOperand(k))->stripPointerCasts()))
              if (B->getName().starts_with("_ZTI")) {
                // only public bases convert: the flags word follows the base in a __vmi_class_type_info
                if (k + 1 < n)
                  if (auto *FL = dyn_cast<ConstantInt>(G.getInitializer()->getOperand(k + 1)))
                    if (!(FL->getZExtValue() & 2)) continue;
                J.value(B->getName());
              }
      });
    }
  });
  J.attributeObject("vtables", [&] {
    for (auto &kv : TypeIdVTables)
      J.attributeArray(kv.first, [&] {
        for (auto &vt : kv.second) J.array([&] {
          J.value(vt.first->getName()); D.names.insert(vt.first->getName().str()); J.value((int64_t)vt.second);
          J.array([&] {
            for (uint64_t k = 0; k < 40; ++k) {
              Function *T = vtableEntry(vt.first, vt.second + 8 * k);
              if (!T) break;
              J.value(T->getName()); D.names.insert(T->getName().str());
            }
          });
        });
      });
  });
  J.attributeObject("globals", [&] {
    for (auto &G : M->globals())
      J.attributeObject(G.getName(), [&] {
        J.attribute("const", G.isConstant());
        J.attribute("tls", G.isThreadLocal());
        J.attribute("size", (int64_t)M->getDataLayout().getTypeAllocSize(G.getValueType()));
        if (G.hasInitializer())
          if (auto *CD = dyn_cast<ConstantDataArray>(G.getInitializer()))
            if (G.isConstant() && CD->getElementType()->isIntegerTy() && CD->getElementType()->getIntegerBitWidth() > 8 && CD->getNumElements() <= 64) {
              J.attribute("esize", (int64_t)CD->getElementByteSize());
              J.attributeArray("ints", [&] { for (unsigned k = 0; k < CD->getNumElements(); ++k) J.value(CD->getElementAsAPInt(k).getSExtValue()); });
            }
        if (G.hasInitializer())
          if (auto *CD = dyn_cast<ConstantDataArray>(G.getInitializer()))
            if (CD->isCString()) { std::string s = CD->getAsCString().str(); if (json::isUTF8(s)) J.attribute("str", s); }
        SmallVector<DIGlobalVariableExpression *, 1> GVs; G.getDebugInfo(GVs);
        if (!GVs.empty()) { J.attribute("n", GVs[0]->getVariable()->getName()); J.attribute("dt", D.diTypeName(GVs[0]->getVariable()->getType()));
          J.attribute("dconst", Dumper::diConst(GVs[0]->getVariable()->getType()));
          J.attribute("repo", isRepoPath(GVs[0]->getVariable()->getFile())); }
      });
  });
  J.attributeObject("funcs", [&] {
    for (auto &F : *M) {
      if (F.getName().starts_with("k52flat.") || F.isIntrinsic()) continue;
      D.names.insert(F.getName().str());
      J.attributeObject(F.getName(), [&] {
        J.attribute("def", !F.isDeclaration());
        J.attribute("repo", repo.count(&F) > 0);
        J.attribute("nt", F.doesNotThrow());
        J.attribute("ro", F.onlyReadsMemory());
        if (!F.isDeclaration()) {
          std::set<std::string> cs;
          for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
            if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) { if (!C->isIntrinsic()) cs.insert(C->getName().str()); }
            if (CB->hasFnAttr("k52.v")) {
              SmallVector<StringRef, 8> parts; CB->getFnAttr("k52.v").getValueAsString().split(parts, ',');
              for (size_t k = 2; k < parts.size(); ++k) cs.insert("v:" + parts[k].str());
            }
          }
          J.attributeArray("calls", [&] { for (auto &c : cs) J.value(c); });
          std::set<std::string> at;
          for (auto &I : instructions(F)) for (auto &O : I.operands()) {
            auto *T = dyn_cast<Function>(O->stripPointerCasts());
            if (!T || T->isIntrinsic()) continue;
            if (auto *CB = dyn_cast<CallBase>(&I)) if (CB->isCallee(&O)) continue;
            at.insert(T->getName().str());
          }
          if (!at.empty()) J.attributeArray("takes", [&] { for (auto &c : at) J.value(c); });
        }
        if (repo.count(&F)) if (auto *SP = F.getSubprogram()) {
          std::string p = SP->getFilename().str();
          if (!p.empty() && p[0] != '/') p = SP->getDirectory().str() + "/" + p;
          if (p.rfind(RepoRoot, 0) == 0) p = p.substr(RepoRoot.size());
          J.attribute("l", p + ":" + std::to_string(SP->getLine()));
        }
      });
    }
  });
  // every DI class in the module
  {
    DebugInfoFinder DF; DF.processModule(*M);
    for (auto *T : DF.types()) if (auto *C = dyn_cast<DICompositeType>(T)) {
      std::string id = Dumper::identifier(C);
      if (id.rfind("_ZTSN3k52", 0) == 0) D.diTypeName(C);
    }
  }
  D.dumpClasses();
  J.attributeObject("dem", [&] {
    for (auto &n : D.names) { std::string d = dem(n); if (d != n) J.attribute(n, d); }
  });
  J.objectEnd();
  OS << "\n";
  return 0;
}
