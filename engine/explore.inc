static void outJson(const string &path, bool complete) {
  std::ofstream o(path); o << "{";
  o << "\"complete\":" << (complete ? "true" : "false");
#define ST(n) o << ",\"" #n "\":" << S.n
  ST(paths); ST(infeasible); ST(steps); ST(queries); ST(qsat); ST(qunsat); ST(qunknown); ST(cached); ST(asserts); ST(eqs); ST(forks); ST(syntactic); ST(solver_s);
  o << ",\"rounded\":" << g_rounded << ",\"inconclusive\":" << g_inconcl << ",\"inconclusive_msgs\":["; for (size_t i = 0; i < g_inconclMsgs.size(); i++) o << (i ? "," : "") << jesc(g_inconclMsgs[i]);
  o << "],\"errors\":["; for (size_t i = 0; i < g_errors.size(); i++) o << (i ? "," : "") << jesc(g_errors[i]);
  o << "],\"funcs\":["; bool first = true; for (auto &s : g_funcs) { o << (first ? "" : ",") << jesc(s); first = false; }
  o << "],\"samples\":["; for (size_t i = 0; i < g_samples.size(); i++) o << (i ? "," : "") << jesc(g_samples[i]);
  auto mp = [&](const char *n, map<string, u64> &m) { o << ",\"" << n << "\":{"; bool f = true; for (auto &k : m) { o << (f ? "" : ",") << jesc(k.first) << ":" << k.second; f = false; } o << "}"; };
  o << "]"; mp("reach", g_reach); mp("sites", g_sites); mp("nonvac", g_nonvac);
  o << ",\"cands\":["; for (size_t i = 0; i < g_cands.size(); i++) { auto &c = g_cands[i]; o << (i ? "," : "") << "{\"kind\":" << jesc(c.kind) << ",\"msg\":" << jesc(c.msg) << ",\"where\":" << jesc(c.where) << ",\"inputs\":" << jesc(c.inputs) << "}"; }
  o << "]}"; o.close(); }
static vector<Obj> baseObjs; static u64 baseHeap = 0; static bool haveBase = false;
static void runPath(const vector<Dec> &prefix, std::unordered_set<DFunc *> &fs) {
  Machine m; bool ok = false;
  if (!haveBase) { Machine g; g.objs = initObjs; 
    if (auto *ctors = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(ctors->getInitializer())) for (auto &e : ca->operands()) { auto *cs = cast<ConstantStruct>(e); auto *fn = dyn_cast<Function>(cs->getOperand(1)); try { g.run(fmap_[fn]); } catch (PathEnd &p) { g_errors.push_back("global ctor: " + p.msg); } }
    baseObjs = g.objs; baseHeap = g.heapLive; haveBase = true; }
  m.objs = baseObjs; m.heapLive = baseHeap; m.prefix = prefix; S.paths++;
  try { m.run(fmap_[M->getFunction(opt.entry)]); ok = true; }
  catch (PathEnd &p) { if (p.kind == "ok") ok = true; else if (p.kind == "infeasible") { S.infeasible++; } else if (p.kind == "error") { if (g_errors.size() < 20) g_errors.push_back(p.msg + " @ " + m.where()); else g_errors.back() = "(more)"; } }
  catch (z3::exception &e) { g_errors.push_back(string("z3: ") + e.msg() + " @ " + m.where()); }
  S.steps += m.steps; for (auto *d : m.g_funcsRaw) fs.insert(d);
  if (ok && g_samples.size() < 4) { string s; for (auto &i : m.inputs) s += i.name + (i.t == 'c' ? "=" + std::to_string(i.v) : "=*") + " "; char b[64]; snprintf(b, sizeof b, "| %zu path conditions", m.pcOrig.size()); g_samples.push_back(s.substr(0, 400) + b); }
}
struct Shared { std::atomic<u64> next; std::atomic<int> stop; };
int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "-o") opt.out = nx(); else if (a == "-j") opt.workers = std::stoi(nx()); else if (a == "-t") opt.time_limit = std::stod(nx()); else if (a == "--entry") opt.entry = nx(); else if (a == "--steps") opt.step_limit = std::stoull(nx()); else if (a == "--depth") opt.depth_limit = std::stoi(nx()); else if (a == "--solver-ms") opt.solver_ms = std::stoi(nx()); else if (a == "--max-cand") opt.max_cand = std::stoi(nx()); else if (a == "-v") opt.verbose = true; else opt.bc = a; }
  double t0 = now(); loadModule(); if (!M->getFunction(opt.entry)) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->next = 0; sh->stop = 0;
  string pf = opt.out + ".prefixes";
  auto work = [&](int id, vector<vector<Dec>> prefixes, bool gen) {
    static z3::context zc; Z = &zc; ZC = zc; static Solver sv(zc); SV = &sv; std::unordered_set<DFunc *> fs; bool complete = true;
    if (gen) { // breadth first until enough prefixes
      std::deque<vector<Dec>> q; q.push_back({}); 
      while (!q.empty() && q.size() < opt.nprefix && S.paths < 3000 && now() - t0 < opt.time_limit * 0.5) { auto p = q.front(); q.pop_front(); worklist.clear(); runPath(p, fs); for (auto &w : worklist) q.push_back(w); }
      std::ofstream o(pf, std::ios::binary); for (auto &p : q) { u32 n = p.size(); o.write((char *)&n, 4); for (auto &d : p) { o.write((char *)&d.kind, 1); o.write((char *)&d.v, 8); } }
    } else {
      u64 sinceReset = 0;
      for (;;) { u64 k = sh->next++; if (k >= prefixes.size()) break; worklist.clear(); worklist.push_back(prefixes[k]);
        while (!worklist.empty()) { if (now() - t0 > opt.time_limit || sh->stop) { complete = false; break; } auto p = worklist.back(); worklist.pop_back(); runPath(p, fs); (void)sinceReset; if (g_cands.size() > 60) { sh->stop = 1; } }
        if (!complete) break; } }
    for (auto *d : fs) g_funcs.insert(demangle(d->name)); outJson(opt.out + "." + std::to_string(id) + ".json", complete); fflush(nullptr); _exit(0); };
  auto spawn = [&](int id, const vector<vector<Dec>> &p, bool gen) { pid_t c = fork(); if (c == 0) { rlimit rl; rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl); try { work(id, p, gen); } catch (std::exception &e) { fprintf(stderr, "worker: %s\n", e.what()); } catch (PathEnd &e) { fprintf(stderr, "worker: %s\n", e.msg.c_str()); } _exit(4); } return c; };
  int bad = 0, stt; pid_t g = spawn(0, {}, true); waitpid(g, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++;
  vector<vector<Dec>> pre; { std::ifstream in(pf, std::ios::binary); u32 n; while (in.read((char *)&n, 4)) { vector<Dec> p(n); for (auto &d : p) { in.read((char *)&d.kind, 1); in.read((char *)&d.v, 8); } pre.push_back(p); } }
  unlink(pf.c_str()); 
  if (!pre.empty()) { vector<pid_t> ch; for (int i = 0; i < opt.workers; i++) ch.push_back(spawn(i + 1, pre, false)); for (pid_t c : ch) { waitpid(c, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad++; } }
  if (bad) { fprintf(stderr, "vmse: %d worker(s) failed\n", bad); return 4; }
  return 0; }
