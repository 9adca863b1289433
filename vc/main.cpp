#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
// vc MODULE.bc HARNESS [name=value ...]   -> JSON on stdout
#include "exec.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <chrono>
#include <unistd.h>
#include <iostream>
#include "../spec/csa_spec.h"
using namespace llvm;

static int g_argc; static char **g_argv; static int g_rc = 3;
static void *run(void *) {
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(g_argv[1], err, ctx);
  if (!M) { printf("{\"status\":\"unsupported: cannot read module\"}\n"); return nullptr; }
  auto X = new Exec(*M); std::string h = g_argv[2];
  X->opaqueDefs["spec_stream8"] = {27, 4, 43, 4, spec_stream8};
  X->opaqueDefs["spec_stream_init"] = {43, 4, 27, 4, spec_stream_init};
  X->opaqueDefs["spec_block_dec"] = {64, 8, 8, 8, spec_block_dec};
  X->opaqueDefs["spec_block_enc"] = {64, 8, 8, 8, spec_block_enc};
  X->opaqueDefs["spec_key_schedule"] = {8, 8, 56, 8, spec_key_schedule};
  X->opaqueDefs["spec_keystream"] = {16, 8, 256, 8, spec_keystream};
  for (int i = 3; i < g_argc; i++) { std::string a = g_argv[i]; size_t p = a.find('='); if (p != std::string::npos) X->params[a.substr(0, p)] = strtol(a.c_str() + p + 1, nullptr, 0); }
  if (X->params.count("satlimit")) X->satLimit = X->params["satlimit"];
  if (X->params.count("instrlimit")) X->instrLimit = X->params["instrlimit"];
  if (X->params.count("maxfail")) X->maxFail = X->params["maxfail"];
  if (X->params.count("maxnodes")) X->D.maxNodes = X->params["maxnodes"];
  auto t0 = std::chrono::steady_clock::now(); std::string st = "ok";
  try {
    Function *F = M->getFunction(h); if (!F || F->isDeclaration()) fail("no harness " + h);
    X->call(F, {}, PC()); X->dischargeAll();
  } catch (EngineError &e) { st = "unsupported: " + e.msg + " (at " + X->loc() + ")"; try { X->restricts.clear(); X->dischargeAll(); } catch (EngineError &) {} }
  catch (std::bad_alloc &) { st = "unsupported: out of memory"; }
  double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  puts(X->json(h, t, st).c_str()); fflush(stdout); g_rc = st == "ok" ? (X->failures.empty() ? 0 : 1) : 2; _exit(g_rc);
}
int main(int argc, char **argv) { prctl(PR_SET_PDEATHSIG, SIGKILL); alarm(7200);
  if (argc < 3) { fprintf(stderr, "usage: vc MODULE.bc HARNESS [name=value ...]\n"); return 3; }
  g_argc = argc; g_argv = argv;
  pthread_attr_t at; pthread_attr_init(&at); size_t sz = (size_t)8 << 30;
  void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_setstack(&at, stk, sz); pthread_t th;
  if (stk == MAP_FAILED || pthread_create(&th, &at, run, nullptr)) { fprintf(stderr, "stack\n"); return 3; }
  pthread_join(th, nullptr); return g_rc;
}
