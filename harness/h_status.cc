// U01: progress reporting and its consumers; U03: lazily evaluated results.
#include "vp.h"
#include "status_provider.h"
#include "status_consumer_registry.h"
#include "lazy_evaluator.h"
#include <memory>
#include <string>
#include <vector>
using namespace devtools_crosstool_autofdo;
extern "C" void progress() {
  int n = 1 + vp_choose(3, "count"), nest = vp_choose(2, "nest");
  MultiStatusProvider m("job"); DefaultStatusProvider* d[4]; int w[4], p[4]; long total = 0;
  static const char* nm[] = {"a", "b", "c", "d"};
  MultiStatusProvider* inner = nullptr;
  for (int i = 0; i < n; i++) {
    w[i] = vp_cfg() ? 1 + (int)vp_below(60, "weight") : (int[]){1, 5, 50, 33}[(i + vp_choose(4, "weight")) % 4]; p[i] = vp_below(101, "progress"); total += w[i];
    auto x = std::make_unique<DefaultStatusProvider>(nm[i]); d[i] = x.get(); x->SetProgress(p[i]);
    if (nest && i == n - 1) { auto y = std::make_unique<MultiStatusProvider>("in"); inner = y.get(); y->AddStatusProvider(w[i], std::move(x)); m.AddStatusProvider(w[i], std::move(y)); }
    else m.AddStatusProvider(w[i], std::move(x));
  }
  int k = 0; long fin = 0; while (k < n && p[k] == 100) fin += w[k++];
  if (k < n && !vp_cfg()) d[k]->SetProgress(p[k] = vp_concretize(p[k]));   // floating point on explored values, the other parts stay symbolic
  int got = m.GetProgress();
  vp_assert(got >= 0 && got <= 100, "progress is a percentage");
  vp_assert(m.IsDone() == (k == n), "done exactly when every part is done");
  if (k == n) { vp_assert(got == 100, "all parts done"); vp_assert(m.GetJob() == "job", "job when done"); }
  else {
    long exact = (fin * 100 + (long)w[k] * p[k]) / total;   // earlier parts in full, the current one in proportion
    vp_assert(got >= exact - 1 - nest && got <= exact + 1, "weighted progress");
    vp_assert(m.GetJob() == (inner && k == n - 1 ? std::string("job - in - ") + nm[k] : std::string("job - ") + nm[k]), "current job");
    int q = vp_below(101, "later progress"); vp_assume(q >= p[k]); if (!vp_cfg()) { q = vp_tier() ? q : p[k] + (q > p[k]); q = vp_concretize(q); if (q == 100) for (int i = k + 1; i < n; i++) if (p[i] != 100) { d[i]->SetProgress(p[i] = vp_concretize(p[i])); break; } } d[k]->SetProgress(q);
    vp_assert(m.GetProgress() >= got, "progress never goes back");
  }
  m.SetDone(); vp_assert(m.IsDone() && m.GetProgress() == 100, "set done"); for (int i = 0; i < n; i++) vp_assert(d[i]->IsDone() && d[i]->GetProgress() == 100, "parts done");
  MultiStatusProvider e("e"); vp_assert(e.GetProgress() == 100 && e.IsDone() && e.GetJob() == "e", "empty");
  vp_observe("progress", got); vp_reach(k == n ? "done" : "working"); vp_must_reach("working"); vp_must_reach("done");
}
namespace {
struct Log { int id, what; StatusProvider* p; };
std::vector<Log>* logv; int alive;
struct C : StatusConsumer { int id; explicit C(int i) : id(i) { alive++; } ~C() override { alive--; } void Start(StatusProvider& p) override { logv->push_back({id, 1, &p}); } void Stop() override { logv->push_back({id, 0, nullptr}); } };
}
extern "C" void registry() {
  std::vector<Log> got, want; logv = &got; DefaultStatusProvider a("a"), b("b"); int reg = 0;
  {
    StatusConsumerRegistry r;
    for (int i = 0; i < 4 + vp_tier(); i++) switch (vp_choose(3, "op")) {
      case 0: r.Register(std::make_unique<C>(reg++)); break;
      case 1: { DefaultStatusProvider& p = vp_choose(2, "which") ? a : b; r.Start(p); for (int k = 0; k < reg; k++) want.push_back({k, 1, &p}); break; }
      default: r.Stop(); for (int k = 0; k < reg; k++) want.push_back({k, 0, nullptr});
    }
    vp_assert(alive == reg, "consumers live as long as the registry");
  }
  vp_assert(alive == 0, "consumers released");
  vp_assert(got.size() == want.size(), "every consumer notified once per call");
  for (size_t i = 0; i < got.size(); i++) vp_assert(got[i].id == want[i].id && got[i].what == want[i].what && got[i].p == want[i].p, "notification order");
  vp_assert(&StatusConsumerRegistry::GetInstance() == &StatusConsumerRegistry::GetInstance(), "one global registry");
  vp_observe("events", got.size());
}
namespace { int runs; struct Mov { int v; explicit Mov(int x) : v(x) {} Mov(Mov&& o) : v(o.v) { o.v = -1; } Mov& operator=(Mov&& o) { v = o.v; o.v = -1; return *this; } }; }
extern "C" void lazy() {
  int x = vp_any<int>("x"), y = vp_any<int>("y"); runs = 0;
  LazyEvaluator<std::unique_ptr<long>(Mov, int)> e([](Mov m, int k) { runs++; return std::make_unique<long>((long)m.v * 3 + k); }, Mov(x), y);
  vp_assert(runs == 0, "nothing evaluated before it is asked for");
  int n = 1 + vp_choose(3, "evaluations"); const void* where = nullptr;
  for (int i = 0; i < n; i++) {
    if (vp_choose(2, "move") && i) { LazyEvaluator<std::unique_ptr<long>(Mov, int)> t(std::move(e)); const auto& r = t.Evaluate(); vp_assert(*r == (long)x * 3 + y && runs == 1, "moved evaluator keeps its result"); return; }
    const auto& r = e.Evaluate(); vp_assert(runs == 1, "evaluated exactly once"); vp_assert(*r == (long)x * 3 + y, "result");
    if (where) vp_assert(where == &r, "same result object"); where = &r;
  }
  LazyEvaluator<int(int)> c(y); vp_assert(c.Evaluate() == y && c.Evaluate() == y, "given result");
  vp_observe("r", (uint64_t)*e.Evaluate());
}
