// C07, C08: progress of nested jobs, the consumer registry, lazy evaluation,
// and the option builders.
#include <algorithm>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "mc.h"
#include "isolate.h"
#include "lazy_evaluator.h"
#include "status_consumer_registry.h"
#include "status_provider.h"
#include "branch_aggregation.h"
#include "branch_frequencies.h"
#include "lbr_aggregation.h"
#include "llvm_propeller_options_builder.h"
using namespace devtools_crosstool_autofdo;
using mc::Ctx;
namespace {
// ---------------------------------------------------------------- C07
struct Node {  // the model
  std::string job;
  bool leaf = true;
  int weight = 1, progress = 0;
  std::vector<Node> kids;
  bool Done() const {
    if (leaf) return progress >= 100;
    for (auto& k : kids)
      if (!k.Done()) return false;
    return true;
  }
  void SetDone() {
    progress = 100;
    for (auto& k : kids) k.SetDone();
  }
  std::string Job() const {
    if (!leaf)
      for (auto& k : kids)
        if (!k.Done()) return job + " - " + k.Job();
    return job;
  }
  // Progress, rounded down at every level; the code computes in single
  // precision, so on a whole number either side of it is accepted.
  int Value(double slack) const {
    if (leaf) return progress;
    int total = 0;
    for (auto& k : kids) total += k.weight;
    if (!total || Done()) return 100;
    double fin = 0;
    for (auto& k : kids) {
      if (!k.Done()) return static_cast<int>((fin * 100 + static_cast<double>(k.weight) * k.Value(slack)) / total + slack);
      fin += k.weight;
    }
    return 100;
  }
};
struct Built {
  std::unique_ptr<StatusProvider> p;
  std::vector<DefaultStatusProvider*> leaves;
};
std::unique_ptr<StatusProvider> Make(const Node& n, std::vector<DefaultStatusProvider*>* leaves) {
  if (n.leaf) {
    auto d = std::make_unique<DefaultStatusProvider>(n.job);
    leaves->push_back(d.get());
    return d;
  }
  auto m = std::make_unique<MultiStatusProvider>(n.job);
  for (auto& k : n.kids) m->AddStatusProvider(k.weight, Make(k, leaves));
  return m;
}
void Leaves(Node& n, std::vector<Node*>* out) {
  if (n.leaf) out->push_back(&n);
  for (auto& k : n.kids) Leaves(k, out);
}
Node PickTree(Ctx& c, int depth, int* id, int* budget) {
  Node n;
  n.job = "job" + std::to_string((*id)++);
  --*budget;
  n.leaf = depth == 0 || !c.flip();
  if (n.leaf) return n;
  int k = c.pick(std::min(4, *budget + 1));
  *budget -= k;
  for (int i = 0; i < k; ++i) {
    ++*budget;
    n.kids.push_back(PickTree(c, depth - 1, id, budget));
    n.kids.back().weight = c.of<int>({10, 1, 20, 0, 30});
  }
  return n;
}
void C07Progress(Ctx& c) {
  int id = 0, budget = mc::tier(4, 5);
  Node root;
  root.leaf = false;
  root.job = "all";
  int k = c.pick(4);
  budget -= k;
  for (int i = 0; i < k; ++i) {
    ++budget;
    root.kids.push_back(PickTree(c, 1, &id, &budget));
    root.kids.back().weight = c.of<int>({10, 1, 20, 0, 30});
  }
  std::vector<DefaultStatusProvider*> leaves;
  auto p = Make(root, &leaves);
  std::vector<Node*> ml;
  Leaves(root, &ml);
  std::string d;
  auto verify = [&](const char* when) {
    c.eq(p->IsDone(), root.Done(), "progress-done", when);
    c.eq(p->GetJob(), root.Job(), "progress-job", when);
    int got = p->GetProgress();
    c.check(got >= root.Value(-1e-3) && got <= root.Value(1e-3), "progress-value",
            std::string(when) + ": progress " + std::to_string(got) + ", expected " + std::to_string(root.Value(1e-3)) + " in " + root.Job());
    c.check(got >= 0 && got <= 100, "progress-range", "out of range");
    c.transition();
    return got;
  };
  verify("at the start");
  // jobs finish in order, with steps in between; then everything is done
  std::vector<int> steps = {10, 50, 99, 100};
  int last = -1;
  for (size_t i = 0; i < ml.size(); ++i) {
    int mode = c.pick(3);
    if (mode == 1) {
      leaves[i]->SetDone();
      ml[i]->SetDone();
    } else if (mode == 2) {
      for (int s : steps) {
        leaves[i]->SetProgress(s);
        ml[i]->progress = s;
        int now = verify("step");
        c.check(now >= last, "progress-back", "progress goes back");
        last = now;
      }
    }
    int now = verify("after a job");
    c.check(now >= last, "progress-back", "progress goes back");
    last = now;
  }
  c.outcome(root.Job() + std::to_string(last));
  p->SetDone();
  root.SetDone();
  verify("after SetDone");
  c.nontrivial();
}
void C07Exact(Ctx& c) {
  // two jobs: every progress value for a grid of weights
  int w1 = c.of<int>({1, 2, 3, 7, 10, 33, 100, 1000}), w2 = c.of<int>({1, 2, 3, 7, 10, 33, 100, 1000});
  bool first_done = c.flip();
  MultiStatusProvider m("m");
  auto a = std::make_unique<DefaultStatusProvider>("a"), b = std::make_unique<DefaultStatusProvider>("b");
  DefaultStatusProvider *pa = a.get(), *pb = b.get();
  m.AddStatusProvider(w1, std::move(a));
  m.AddStatusProvider(w2, std::move(b));
  c.say(std::to_string(w1) + " " + std::to_string(w2) + (first_done ? " first done" : ""));
  if (first_done) pa->SetDone();
  for (int p = 0; p <= 100; ++p) {
    (first_done ? pb : pa)->SetProgress(p);
    int64_t num = static_cast<int64_t>(first_done ? w1 * 100 + w2 * p : w1 * p), den = w1 + w2;
    int got = m.GetProgress();
    if (!(first_done == false && p == 100)) {
      c.check(got == num / den || (num % den == 0 && got == num / den - 1), "progress-value", "at " + std::to_string(p) + " got " + std::to_string(got) + ", exact " + std::to_string(num) + "/" + std::to_string(den));
    }
    c.outcome(static_cast<uint64_t>(got * 7919 + w1 * 31 + w2));
    c.transition();
  }
  c.nontrivial();
}
// Every interleaving point: a consumer callback of one operation, during which
// another thread performs a second operation.  The calls each consumer sees
// must be those of some sequential order of the two operations.
struct Log {
  std::mutex m;
  std::vector<std::string> events;
  std::vector<void*> providers;
};
struct Consumer : StatusConsumer {
  Consumer(Log* l, std::function<void()> hook) : log(l), hook(std::move(hook)) {}
  void Start(StatusProvider& p) override {
    {
      std::lock_guard<std::mutex> g(log->m);
      log->events.push_back("start");
      log->providers.push_back(&p);
    }
    hook();
  }
  void Stop() override {
    {
      std::lock_guard<std::mutex> g(log->m);
      log->events.push_back("stop");
    }
    hook();
  }
  Log* log;
  std::function<void()> hook;
};
void C07Registry(Ctx& c) {
  int n = c.pick(4);                 // consumers registered first
  int op1 = c.pick(2), op2 = c.pick(3);
  int at = n ? c.pick(n + 1) : 0;    // callback of the first operation at which the second runs; n: afterwards
  bool third = c.flip();             // a Stop at the end
  c.say(std::to_string(n) + " consumers, op " + std::to_string(op1) + " with op " + std::to_string(op2) + " during callback " + std::to_string(at));
  StatusConsumerRegistry reg;
  DefaultStatusProvider prov("j");
  std::vector<std::unique_ptr<Log>> logs;
  for (int i = 0; i < 4; ++i) logs.push_back(std::make_unique<Log>());
  std::thread other;
  std::atomic<int> calls{0};
  std::atomic<bool> done2{false}, in1{false};
  auto second = [&] {
    if (op2 == 0) reg.Start(prov);
    if (op2 == 1) reg.Stop();
    if (op2 == 2) reg.Register(std::make_unique<Consumer>(logs[3].get(), [] {}));
    done2 = true;
  };
  auto hook = [&] {
    if (!in1 || calls++ != at) return;
    other = std::thread(second);
    for (int i = 0; i < 100 && !done2; ++i) usleep(100);  // it may run here, or wait for the first to finish
  };
  for (int i = 0; i < n; ++i) reg.Register(std::make_unique<Consumer>(logs[i].get(), hook));
  in1 = true;
  if (op1 == 0) reg.Start(prov); else reg.Stop();
  in1 = false;
  if (other.joinable()) other.join();
  else second();
  if (third) reg.Stop();
  const char* name[] = {"start ", "stop "};
  std::string got, w[2];
  for (int i = 0; i < 4; ++i) {
    for (auto& e : logs[i]->events) got += e + " ";
    got += "| ";
    for (auto* p : logs[i]->providers) c.check(p == &prov, "registry-provider", "another provider");
    for (int order = 0; order < 2; ++order) {
      for (int k = 0; k < 2; ++k) {
        int op = (k == order) ? op1 : op2;
        bool there = i < n || (i == 3 && op2 == 2 && order == 1 && k == 1);
        if (op != 2 && there) w[order] += name[op];
      }
      if (third && (i < n || (i == 3 && op2 == 2))) w[order] += "stop ";
      w[order] += "| ";
    }
  }
  if (at < n) c.check(got == w[0] || got == w[1], "registry-order", "consumers saw " + got + "; possible: " + w[0] + " or " + w[1]);
  else c.eq(got, w[0], "registry-sequence", "consumers saw");
  c.outcome(got);
  c.nontrivial();
}
void C07Lazy(Ctx& c) {
  // Evaluate any number of times, before and after moving the evaluator.
  int calls = 0, kind = c.pick(3), n = c.pick(5);
  std::string seen;
  auto body = [&](std::unique_ptr<int> a, std::string b) {
    ++calls;
    return std::make_unique<std::string>(std::to_string(*a) + b);
  };
  using E = LazyEvaluator<std::unique_ptr<std::string>(std::unique_ptr<int>, std::string)>;
  E e = kind == 0 ? E(body, std::make_unique<int>(7), "x") : kind == 1 ? E(body, std::make_unique<int>(8), std::string(100, 'y')) : E(std::make_unique<std::string>("ready"));
  const std::string want = kind == 0 ? "7x" : kind == 1 ? "8" + std::string(100, 'y') : "ready";
  c.eq(calls, 0, "lazy-early", "evaluated before it was asked");
  const std::string* where = nullptr;
  int evals = 0;
  for (int i = 0; i < n; ++i) {
    if (c.flip()) {
      E f = std::move(e);
      e = std::move(f);
    } else {
      const auto& r = e.Evaluate();
      ++evals;
      c.check(r != nullptr, "lazy-lost", "the result is gone");
      c.eq(*r, want, "lazy-value", "result");
      if (where) c.check(where == r.get(), "lazy-again", "another result object");
      where = r.get();
    }
    c.eq(calls, kind == 2 || evals == 0 ? 0 : 1, "lazy-calls", "calls of the adapter");
  }
  // the output type may be the same as the input type
  LazyEvaluator<int(int)> same([&](int x) { return x + 1; }, 4);
  c.eq(same.Evaluate() + same.Evaluate(), 10, "lazy-same", "same input and output type");
  c.outcome(want + std::to_string(evals));
  c.nontrivial();
}
// ---------------------------------------------------------------- C08
using O = PropellerOptionsBuilder;
using L = PropellerCodeLayoutParametersBuilder;
template <class B>
struct Setter {
  const char* field;  // "a" or "a.b"
  std::function<B&(B&, uint64_t)> set;
};
std::string Text(uint64_t v) { return v == 0 ? "" : v == 1 ? "x" : std::string("a\0b", 3) + std::to_string(v); }
InputProfile Input(uint64_t v) {
  InputProfileBuilder b;
  if (v & 1) b.SetName(Text(v));
  if (v != 2) b.SetType(v == 0 ? PERF_LBR : v == 1 ? PERF_SPE : FREQUENCIES_PROTO);
  return b;
}
PropellerCodeLayoutParameters Params(uint64_t v) {
  PropellerCodeLayoutParameters p;
  if (v) p.set_forward_jump_weight(v);
  if (v > 1) p.set_chain_split(false);
  return p;
}
#define NUM(F, S) {F, [](O& b, uint64_t v) -> O& { return b.S(static_cast<uint32_t>(v)); }}
#define STR(F, S) {F, [](O& b, uint64_t v) -> O& { return b.S(Text(v)); }}
#define BOO(F, S) {F, [](O& b, uint64_t v) -> O& { return b.S(v & 1); }}
const std::vector<Setter<O>>& Setters() {
  static const std::vector<Setter<O>> s = {
      STR("binary_name", SetBinaryName), STR("profile_names", AddProfileNames), STR("cluster_out_name", SetClusterOutName),
      STR("symbol_order_out_name", SetSymbolOrderOutName), STR("profiled_binary_name", SetProfiledBinaryName), BOO("ignore_build_id", SetIgnoreBuildId),
      {"code_layout_params", [](O& b, uint64_t v) -> O& { return b.SetCodeLayoutParams(Params(v)); }},
      NUM("code_layout_params.fallthrough_weight", SetCodeLayoutParamsFallthroughWeight), NUM("code_layout_params.forward_jump_weight", SetCodeLayoutParamsForwardJumpWeight),
      NUM("code_layout_params.backward_jump_weight", SetCodeLayoutParamsBackwardJumpWeight), NUM("code_layout_params.forward_jump_distance", SetCodeLayoutParamsForwardJumpDistance),
      NUM("code_layout_params.backward_jump_distance", SetCodeLayoutParamsBackwardJumpDistance), BOO("code_layout_params.chain_split", SetCodeLayoutParamsChainSplit),
      NUM("code_layout_params.chain_split_threshold", SetCodeLayoutParamsChainSplitThreshold), BOO("code_layout_params.call_chain_clustering", SetCodeLayoutParamsCallChainClustering),
      NUM("code_layout_params.cluster_merge_size_threshold", SetCodeLayoutParamsClusterMergeSizeThreshold), BOO("code_layout_params.split_functions", SetCodeLayoutParamsSplitFunctions),
      BOO("code_layout_params.reorder_hot_blocks", SetCodeLayoutParamsReorderHotBlocks), BOO("code_layout_params.inter_function_reordering", SetCodeLayoutParamsInterFunctionReordering),
      BOO("verbose_cluster_output", SetVerboseClusterOutput), STR("cfg_dump_dir_name", SetCfgDumpDirName), BOO("http", SetHttp), BOO("output_module_name", SetOutputModuleName),
      BOO("filter_non_text_functions", SetFilterNonTextFunctions),
      {"cluster_out_version", [](O& b, uint64_t v) -> O& { return b.SetClusterOutVersion(v == 0 ? VERSION_0 : v == 1 ? VERSION_1 : CLUSTER_ENCODING_VERSION_UNSPECIFIED); }},
      {"input_profiles", [](O& b, uint64_t v) -> O& { return b.AddInputProfiles(Input(v)); }},
  };
  return s;
}
#undef NUM
#undef BOO
#define NUM(F, S) {F, [](L& b, uint64_t v) -> L& { return b.S(static_cast<uint32_t>(v)); }}
#define BOO(F, S) {F, [](L& b, uint64_t v) -> L& { return b.S(v & 1); }}
const std::vector<Setter<L>>& LSetters() {
  static const std::vector<Setter<L>> s = {
      NUM("fallthrough_weight", SetFallthroughWeight), NUM("forward_jump_weight", SetForwardJumpWeight), NUM("backward_jump_weight", SetBackwardJumpWeight),
      NUM("forward_jump_distance", SetForwardJumpDistance), NUM("backward_jump_distance", SetBackwardJumpDistance), BOO("chain_split", SetChainSplit),
      NUM("chain_split_threshold", SetChainSplitThreshold), BOO("call_chain_clustering", SetCallChainClustering), NUM("cluster_merge_size_threshold", SetClusterMergeSizeThreshold),
      BOO("split_functions", SetSplitFunctions), BOO("reorder_hot_blocks", SetReorderHotBlocks), BOO("inter_function_reordering", SetInterFunctionReordering),
  };
  return s;
}
// The reference uses the schema: the field of that name gets the value.
void Apply(google::protobuf::Message* m, const std::string& path, uint64_t v) {
  size_t dot = path.find('.');
  const google::protobuf::FieldDescriptor* f = m->GetDescriptor()->FindFieldByName(path.substr(0, dot));
  if (!f) throw mc::Violation{"options-schema", "no field " + path};
  auto* r = m->GetReflection();
  if (dot != std::string::npos) return Apply(r->MutableMessage(m, f), path.substr(dot + 1), v);
  using F = google::protobuf::FieldDescriptor;
  if (f->is_repeated()) {
    if (f->cpp_type() == F::CPPTYPE_STRING) r->AddString(m, f, Text(v));
    else r->AddMessage(m, f)->CopyFrom(Input(v));
    return;
  }
  switch (f->cpp_type()) {
    case F::CPPTYPE_STRING: r->SetString(m, f, Text(v)); break;
    case F::CPPTYPE_BOOL: r->SetBool(m, f, v & 1); break;
    case F::CPPTYPE_UINT32: r->SetUInt32(m, f, static_cast<uint32_t>(v)); break;
    case F::CPPTYPE_ENUM: r->SetEnumValue(m, f, v == 0 ? 1 : v == 1 ? 2 : 0); break;
    default: r->MutableMessage(m, f)->CopyFrom(Params(v));
  }
}
template <class B, class M>
void Options(Ctx& c, const std::vector<Setter<B>>& s, const M& start) {
  M want = start;
  B b(start);
  int n = c.pick(mc::tier(3, 4) + 1);
  std::string d;
  for (int i = 0; i < n; ++i) {
    const Setter<B>& x = s[c.pick(s.size())];
    uint64_t v = i < 2 ? c.of<uint64_t>({0, 1, 2, 0xffffffffu}) : 3;
    d += std::string(x.field) + "=" + std::to_string(v) + " ";
    B& r = x.set(b, v);
    c.check(&r == &b, "options-chain", "the setter returns another builder");
    Apply(&want, x.field, v);
  }
  const M& got = b;
  c.say(d);
  c.eq(got.SerializeAsString() == want.SerializeAsString() ? std::string("same") : got.ShortDebugString(), std::string("same"), "options", "after " + d + " expected " + want.ShortDebugString());
  c.outcome(want.SerializeAsString());
  c.nontrivial();
}
void C08Top(Ctx& c) {
  PropellerOptions start;
  if (c.flip()) start = O().SetBinaryName("old").AddProfileNames("p0").SetCodeLayoutParamsChainSplit(false);
  Options<O>(c, Setters(), start);
}
void C08Layout(Ctx& c) {
  PropellerCodeLayoutParameters start;
  if (c.flip()) start = L().SetFallthroughWeight(3).SetChainSplit(false);
  Options<L>(c, LSetters(), start);
}
void C08Input(Ctx& c) {
  InputProfile start;
  if (c.flip()) start.set_name("old");
  InputProfileBuilder b(start);
  InputProfile want = start;
  int n = c.pick(5);
  for (int i = 0; i < n; ++i) {
    if (c.flip()) {
      uint64_t v = c.pick(3);
      b.SetName(Text(v));
      want.set_name(Text(v));
    } else {
      ProfileType t = static_cast<ProfileType>(c.pick(4));
      b.SetType(t);
      want.set_type(t);
    }
  }
  const InputProfile& got = b;
  c.eq(got.SerializeAsString() == want.SerializeAsString(), true, "options-input", "input profile");
  c.outcome(want.SerializeAsString());
  c.nontrivial();
}
}  // namespace
int main(int argc, char** argv) {
  return mc::Main(argc, argv, {
      {"C07/progress", C07Progress, 4},
      {"C07/exact", C07Exact, 2},
      {"C07/registry", C07Registry, 3},
      {"C07/lazy", C07Lazy, 2},
      {"C08/options", C08Top, 3},
      {"C08/layout", C08Layout, 3},
      {"C08/input", C08Input, 3},
  });
}
