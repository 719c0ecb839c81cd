#include "pbt.h"
#include <tvm/graph/internal/Logger.h>
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
namespace
{
std::vector<Prop> & props()
{
  static std::vector<Prop> p;
  return p;
}

constexpr size_t MAXC = 1 << 16;
struct Slot // written by a worker, read by the parent when the worker dies.
{
  uint64_t caseIdx;
  volatile uint64_t batchStart;
  uint64_t n;
  volatile uint64_t heartbeat;
  volatile int failed; // 1: a Failure (or an exception) was reported through msg
  volatile int stop;
  char msg[8192];
  char log[65536];
  uint64_t c[MAXC];
};
constexpr size_t NHASH = 1 << 21;
constexpr size_t NTAG = 256;
constexpr size_t NSAMPLE = 6;
struct Shared
{
  volatile int stop;
  uint64_t evaluations, discarded, nontrivial, distinct, choices;
  uint64_t hashes[NHASH];
  struct
  {
    char name[64];
    uint64_t count;
  } tags[NTAG];
  char samples[NSAMPLE][4096];
  volatile uint64_t sampleState;
  volatile int lock;
};
Shared * sh = nullptr;
Slot * cur = nullptr; // slot of the current worker

void lock()
{
  while(__sync_lock_test_and_set(&sh->lock, 1)) usleep(10);
}
void unlock() { __sync_lock_release(&sh->lock); }

template<typename T>
T * shared(size_t n = 1)
{
  void * p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if(p == MAP_FAILED)
  {
    perror("mmap");
    exit(3);
  }
  return static_cast<T *>(p);
}

uint64_t hash(const std::vector<uint64_t> & v, uint64_t h = 1469598103934665603ull)
{
  for(uint64_t x : v)
  {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 1099511628211ull;
  }
  return h ? h : 1;
}

uint64_t hashStr(const char * s)
{
  uint64_t h = 1469598103934665603ull;
  for(; *s; ++s) h = (h ^ static_cast<uint64_t>(*s)) * 1099511628211ull;
  return h;
}

void setStr(char * dst, size_t n, const std::string & s)
{
  size_t k = std::min(n - 1, s.size());
  memcpy(dst, s.data(), k);
  dst[k] = 0;
}

/** Run a case. Return true if it passes. Called in a worker.*/
bool runCase(const Prop & p, Gen & g, bool stats)
{
  bool ok = true, discarded = false;
  std::string msg;
  try
  {
    p.fn(g);
  }
  catch(const Failure & f)
  {
    ok = false;
    msg = f.msg;
  }
  catch(const Discard &)
  {
    discarded = true;
  }
  catch(const std::exception & e)
  {
    ok = false;
    msg = std::string("unexpected exception: ") + e.what();
  }
  catch(...)
  {
    ok = false;
    msg = "unexpected exception of unknown type";
  }
  if(!ok)
  {
    setStr(cur->msg, sizeof(cur->msg), msg);
    setStr(cur->log, sizeof(cur->log), g.logText());
    cur->failed = 1;
    return false;
  }
  if(stats)
  {
    lock();
    ++sh->evaluations;
    sh->choices += g.consumed().size();
    if(discarded) ++sh->discarded;
    bool isNew = false;
    if(g.nontrivialCount() && !discarded)
    {
      ++sh->nontrivial;
      uint64_t h = hash(g.consumed(), hashStr(p.name));
      size_t i = h % NHASH;
      for(size_t k = 0; k < 64; ++k, i = (i + 1) % NHASH)
      {
        if(sh->hashes[i] == h) break;
        if(sh->hashes[i] == 0)
        {
          sh->hashes[i] = h;
          ++sh->distinct;
          isNew = true;
          break;
        }
      }
    }
    std::set<std::string> ts;
    for(const char * t : g.tags()) ts.insert(std::string(p.name) + "/" + t);
    ts.insert(std::string(p.name) + "/cases");
    if(g.nontrivialCount()) ts.insert(std::string(p.name) + "/nontrivial");
    if(discarded) ts.insert(std::string(p.name) + "/discarded");
    for(const auto & t : ts)
    {
      for(size_t i = 0; i < NTAG; ++i)
      {
        if(sh->tags[i].name[0] == 0) setStr(sh->tags[i].name, 64, t);
        if(t.compare(0, 63, sh->tags[i].name) == 0)
        {
          ++sh->tags[i].count;
          break;
        }
      }
    }
    if(isNew)
    {
      // The first non-trivial cases, then some later ones
      uint64_t d = sh->distinct;
      if((d & (d - 1)) == 0)
      {
        size_t k = static_cast<size_t>(sh->sampleState % NSAMPLE);
        setStr(sh->samples[k], 4096, std::string(p.name) + ": " + g.logText());
        sh->sampleState = sh->sampleState + 1;
      }
    }
    unlock();
  }
  return true;
}

struct Outcome
{
  bool ok = true;
  std::string msg;
  std::string log;
  std::vector<uint64_t> choices;
};

bool verbose = false;
int caseTimeout = 60;

void childSetup()
{
  if(!verbose)
  {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    // stderr is kept in a file for reporting
    ::close(fd);
  }
}

std::string errFile()
{
  return "/tmp/pbt_" + std::to_string(getpid()) + "_err";
}

std::string tailFile(const std::string & f)
{
  std::ifstream in(f);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  // the interesting part is at the beginning
  std::istringstream is(s);
  std::string l, r;
  for(int k = 0; k < 22 && std::getline(is, l); ++k) r += l.substr(0, 300) + "\n";
  return r;
}

/** Run f in a forked child using slot s. Return ok, or a failure outcome. */
Outcome isolated(Slot * s, const std::function<void()> & f)
{
  s->failed = 0;
  s->n = 0;
  s->msg[0] = 0;
  s->log[0] = 0;
  s->heartbeat = 0;
  std::string ef = errFile();
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if(pid == 0)
  {
    cur = s;
    int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(!verbose) dup2(fd, 2);
    childSetup();
    f();
    _exit(0);
  }
  int status = 0;
  auto t0 = std::chrono::steady_clock::now();
  bool timeout = false;
  int us = 50;
  while(waitpid(pid, &status, WNOHANG) == 0)
  {
    usleep(us);
    us = std::min(2000, us * 2);
    if(std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > caseTimeout)
    {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      timeout = true;
      break;
    }
  }
  Outcome o;
  if(timeout)
  {
    o.ok = false;
    o.msg = "the case does not terminate";
  }
  else if(s->failed)
  {
    o.ok = false;
    o.msg = s->msg;
  }
  else if(!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
  {
    o.ok = false;
    o.msg = "the case crashed (status " + std::to_string(status) + ")\n" + tailFile(ef);
  }
  o.log = s->log;
  o.choices.assign(s->c, s->c + std::min<uint64_t>(s->n, MAXC));
  unlink(ef.c_str());
  return o;
}

Outcome runChoices(Slot * s, const Prop & p, const std::vector<uint64_t> & c)
{
  return isolated(s, [&] {
    Gen g(c);
    runCase(p, g, false);
  });
}

uint64_t caseSeed(uint64_t seed, const Prop & p, uint64_t i)
{
  uint64_t s = seed * 0x2545F4914F6CDD1Dull + hashStr(p.name) + i * 0x9E3779B97F4A7C15ull;
  splitmix(s);
  return splitmix(s);
}

std::vector<uint64_t> shrink(Slot * s, const Prop & p, std::vector<uint64_t> best, double budget)
{
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget; };
  auto attempt = [&](const std::vector<uint64_t> & c) {
    Outcome o = runChoices(s, p, c);
    if(o.ok) return false;
    // what was actually consumed is what matters
    std::vector<uint64_t> r = o.choices;
    if(r.size() < best.size() || (r.size() == best.size() && r < best))
    {
      best = r;
      return true;
    }
    return false;
  };
  bool progress = true;
  while(progress && !over())
  {
    progress = false;
    for(size_t k = 32; k >= 1 && !over(); k /= 2)
    {
      for(size_t i = best.size(); i-- > 0 && !over();)
      {
        if(i + k > best.size()) continue;
        std::vector<uint64_t> c = best;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
        if(attempt(c)) progress = true;
      }
    }
    for(size_t k = 8; k >= 1 && !over(); k /= 2)
    {
      for(size_t i = 0; i + k <= best.size() && !over(); i += k)
      {
        std::vector<uint64_t> c = best;
        bool nz = false;
        for(size_t j = i; j < i + k; ++j)
        {
          nz = nz || c[j];
          c[j] = 0;
        }
        if(nz && attempt(c)) progress = true;
      }
    }
    for(size_t i = 0; i < best.size() && !over(); ++i)
    {
      uint64_t lo = 0;
      while(i < best.size() && lo < best[i] && !over())
      {
        std::vector<uint64_t> c = best;
        uint64_t mid = lo + (best[i] - lo) / 2;
        c[i] = mid;
        uint64_t before = best[i];
        if(attempt(c) && i < best.size() && best[i] < before)
          progress = true;
        else
          lo = mid + 1;
      }
      // delete-and-decrement: a count followed by its elements
      if(i < best.size() && best[i] > 0)
      {
        for(size_t k = 1; k <= 6 && !over(); ++k)
        {
          bool done = false;
          for(size_t j = i + 1; j + k <= best.size() && j < i + 24 && !over(); ++j)
          {
            std::vector<uint64_t> c = best;
            c[i] -= 1;
            c.erase(c.begin() + static_cast<long>(j), c.begin() + static_cast<long>(j + k));
            if(attempt(c))
            {
              progress = true;
              done = true;
              break;
            }
          }
          if(done || i >= best.size() || best[i] == 0) break;
        }
      }
    }
  }
  return best;
}

std::string jsonStr(const std::string & s)
{
  std::string r = "\"";
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\')
    {
      r += '\\';
      r += static_cast<char>(c);
    }
    else if(c == '\n')
      r += "\\n";
    else if(c < 32 || c > 126)
      r += "?";
    else
      r += static_cast<char>(c);
  }
  return r + "\"";
}

std::string verifDir = ".";

std::string writeReplay(const Prop & p, const std::string & kind, const std::vector<uint64_t> & data, const Outcome & o)
{
  std::string dir = verifDir + "/replays";
  mkdir(dir.c_str(), 0755);
  std::string path = dir + "/" + info.id + "_" + p.name + "_" + std::to_string(hash(data) % 1000000007ull) + ".replay";
  std::ofstream f(path);
  f << "property " << info.id << "\nsub " << p.name << "\nkind " << kind << "\nchoices " << data.size();
  for(auto v : data) f << " " << v;
  f << "\n--- failure\n" << o.msg << "\n--- case\n" << o.log << "\n";
  return path;
}

const Prop * findProp(const std::string & n)
{
  for(const auto & p : props())
    if(n == p.name) return &p;
  return nullptr;
}

Outcome runBatch(Slot * s, const Prop & p, uint64_t seed, uint64_t start, uint64_t stride, uint64_t end)
{
  return isolated(s, [&] {
    for(uint64_t i = start; i <= end; i += stride)
    {
      cur->n = 0;
      Gen g(caseSeed(seed, p, i));
      if(!runCase(p, g, false)) return;
    }
  });
}

int replay(const std::string & path)
{
  std::ifstream f(path);
  std::string w, sub, kind;
  std::vector<uint64_t> c;
  while(f >> w)
  {
    if(w == "sub")
      f >> sub;
    else if(w == "kind")
      f >> kind;
    else if(w == "choices")
    {
      size_t n;
      f >> n;
      c.resize(n);
      for(auto & v : c) f >> v;
      break;
    }
  }
  const Prop * p = findProp(sub);
  if(!p)
  {
    std::cerr << "cannot read " << path << "\n";
    return 3;
  }
  Slot * s = shared<Slot>();
  Outcome o;
  if(kind == "batch")
    o = runBatch(s, *p, c.at(0), c.at(1), c.at(2), c.at(3));
  else
    o = runChoices(s, *p, c);
  std::cout << (o.ok ? "PASS" : "FAIL") << "\n" << o.msg << "\n--- case\n" << o.log << "\n";
  return o.ok ? 0 : 1;
}
} // namespace

uint64_t Gen::draw(uint64_t n)
{
  if(n == 0) fail("harness error: draw(0)");
  if(consumed_.size() >= MAXC) throw Discard{};
  uint64_t v;
  if(replay_)
    v = pos_ < choices_.size() ? choices_[pos_++] % n : 0;
  else
    v = splitmix(state_) % n;
  consumed_.push_back(v);
  if(cur)
  {
    cur->c[cur->n] = v;
    cur->n = cur->n + 1;
  }
  return v;
}

void Gen::publish()
{
  if(!replay_ || !cur) return;
  std::string l = log_.str();
  setStr(cur->log, sizeof(cur->log), l);
}

Registrar::Registrar(const char * name, PropFn fn, int quick, int thorough)
{ props().push_back({name, fn, quick, thorough}); }
} // namespace pbt

using namespace pbt;

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
  sh = shared<Shared>();
  cur = shared<Slot>();
  return 0;
}
// The bytes are decoded in choices. The first byte selects the sub-property.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
  if(size < 2) return 0;
  const Prop & p = props()[data[0] % props().size()];
  std::vector<uint64_t> c;
  for(size_t i = 1; i < size;)
  {
    // 1-byte choices, except when the byte is 255, which announces a 3-byte choice
    if(data[i] == 255 && i + 3 < size)
    {
      c.push_back(data[i + 1] | (uint64_t(data[i + 2]) << 8) | (uint64_t(data[i + 3]) << 16));
      i += 4;
    }
    else
      c.push_back(data[i++]);
  }
  cur->n = 0;
  Gen g(c);
  cur->failed = 0;
  if(!runCase(p, g, true))
  {
    fprintf(stderr, "FUZZ-FAILURE sub=%s\n%s\n--- case\n%s\n", p.name, cur->msg, cur->log);
    if(const char * out = getenv("PBT_FUZZ_REPLAY"))
    {
      std::ofstream f(out);
      f << "property " << info.id << "\nsub " << p.name << "\nkind case\nchoices " << g.consumed().size();
      for(auto v : g.consumed()) f << " " << v;
      f << "\n--- failure\n" << cur->msg << "\n--- case\n" << cur->log << "\n";
    }
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char ** argv)
{
  // The log of the graph declarations is unbounded
  tvm::graph::internal::Logger::logger().disable();
  uint64_t seed = 1;
  std::string tier = "quick";
  std::string only;
  std::string evidence;
  double scale = 1;
  double budget = 600;
  int workers = getenv("PBT_WORKERS") ? atoi(getenv("PBT_WORKERS")) : 8;
  if(const char * e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
  if(const char * e = getenv("VERIF_TIER")) tier = e;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--replay")
    {
      verbose = getenv("PBT_VERBOSE") != nullptr;
      return replay(next());
    }
    else if(a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
    else if(a == "--tier") tier = next();
    else if(a == "--only") only = next();
    else if(a == "--evidence") evidence = next();
    else if(a == "--verif") verifDir = next();
    else if(a == "--scale") scale = atof(next().c_str());
    else if(a == "--budget") budget = atof(next().c_str());
    else if(a == "--workers") workers = atoi(next().c_str());
    else if(a == "--verbose") verbose = true;
    else { std::cerr << "unknown option " << a << "\n"; return 3; }
  }
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  sh = shared<Shared>();
  std::vector<Slot *> slots;
  for(int w = 0; w < workers; ++w) slots.push_back(shared<Slot>());
  Slot * aux = shared<Slot>();

  int violations = 0;
  bool truncated = false;
  uint64_t irreproducible = 0;
  std::string violationPath;
  const uint64_t B = 64; // cases per forked batch
  for(const auto & p : props())
  {
    if(!only.empty() && only != p.name) continue;
    uint64_t N = static_cast<uint64_t>(std::max(1., scale * (tier == "thorough" ? p.thorough : p.quick)));
    double tp = elapsed();
    uint64_t nextBatch = 0;
    uint64_t nbBatches = (N + B - 1) / B;
    struct W { pid_t pid = 0; uint64_t b = 0; uint64_t lastHb = 0; double lastT = 0; std::string err; };
    std::vector<W> ws(static_cast<size_t>(workers));
    bool found = false;
    uint64_t badCase = 0, badStart = 0;
    std::vector<uint64_t> badChoices;
    auto launch = [&](size_t w) {
      W & k = ws[w];
      k.b = nextBatch++;
      Slot * s = slots[w];
      s->failed = 0; s->n = 0; s->heartbeat = 0; s->batchStart = k.b * B; s->caseIdx = k.b * B;
      k.lastHb = 0; k.lastT = elapsed();
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if(pid == 0)
      {
        cur = s;
        int fd = open("/dev/null", O_WRONLY);
        if(!verbose) { dup2(fd, 1); dup2(fd, 2); }
        for(uint64_t i = k.b * B; i < std::min(N, (k.b + 1) * B); ++i)
        {
          cur->n = 0;
          cur->caseIdx = i;
          Gen g(caseSeed(seed, p, i));
          if(!runCase(p, g, true)) _exit(1);
          cur->heartbeat = cur->heartbeat + 1;
        }
        _exit(0);
      }
      k.pid = pid;
    };
    bool stop = false;
    auto killAll = [&] {
      for(auto & k : ws)
        if(k.pid) { kill(k.pid, SIGKILL); int st; waitpid(k.pid, &st, 0); k.pid = 0; }
    };
    while(true)
    {
      bool any = false;
      if(elapsed() > budget) { stop = true; truncated = truncated || nextBatch < nbBatches; }
      bool idle = true;
      for(size_t w = 0; w < ws.size(); ++w)
      {
        W & k = ws[w];
        if(k.pid)
        {
          int st = 0;
          pid_t r = waitpid(k.pid, &st, WNOHANG);
          bool bad = false;
          if(r == k.pid)
          {
            idle = false;
            k.pid = 0;
            bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
          }
          else
          {
            if(slots[w]->heartbeat != k.lastHb) { k.lastHb = slots[w]->heartbeat; k.lastT = elapsed(); }
            if(elapsed() - k.lastT > caseTimeout)
            {
              kill(k.pid, SIGKILL);
              waitpid(k.pid, &st, 0);
              k.pid = 0;
              bad = true;
            }
          }
          if(bad)
          {
            uint64_t i = slots[w]->caseIdx;
            std::vector<uint64_t> c(slots[w]->c, slots[w]->c + std::min<uint64_t>(slots[w]->n, MAXC));
            // Replay three times, alone.
            int nf = 0;
            for(int k3 = 0; k3 < 3; ++k3) nf += !runChoices(aux, p, c).ok;
            if(nf == 3) { found = true; badCase = i; badChoices = c; break; }
            // Then in the context of its batch
            nf = 0;
            Outcome ob;
            for(int k3 = 0; k3 < 3; ++k3) { ob = runBatch(aux, p, seed, slots[w]->batchStart, 1, i); nf += !ob.ok; }
            if(nf == 3)
            {
              killAll();
              violationPath = writeReplay(p, "batch", {seed, slots[w]->batchStart, 1, i}, ob);
              std::cout << "FAILURE (needs the history of its batch) sub=" << p.name << "\n" << ob.msg << "\n--- case\n" << ob.log << "\n";
              ++violations;
              stop = true;
              break;
            }
            ++irreproducible;
          }
        }
        if(!k.pid && !stop && !found && nextBatch < nbBatches) { launch(w); idle = false; }
        any = any || k.pid;
      }
      if(found || violations) break;
      if(!any && (stop || nextBatch >= nbBatches)) break;
      if(idle) usleep(200);
    }
    if(found)
    {
      killAll();
      std::cout << "failing case " << badCase << " of " << p.name << " (" << badChoices.size() << " choices), shrinking...\n" << std::flush;
      auto best = shrink(aux, p, badChoices, 60);
      Outcome o = runChoices(aux, p, best);
      if(o.ok) { best = badChoices; o = runChoices(aux, p, best); }
      violationPath = writeReplay(p, "case", best, o);
      std::cout << "FAILURE sub=" << p.name << " (" << best.size() << " choices)\n" << o.msg << "\n--- case\n" << o.log << "\n";
      ++violations;
    }
    std::cout << "  " << p.name << ": " << std::min(N, nextBatch * B) << " cases, " << elapsed() - tp << " s\n" << std::flush;
    if(violations) break;
  }

  // Evidence
  if(!evidence.empty())
  {
    std::ofstream f(evidence);
    f << "{\n \"property\": \"" << info.id << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << sh->evaluations
      << ",\n  \"distinct_nontrivial\": " << sh->distinct << ",\n  \"nontrivial\": " << sh->nontrivial
      << ",\n  \"discarded\": " << sh->discarded << ",\n  \"choices_drawn\": " << sh->choices
      << ",\n  \"irreproducible_failures\": " << irreproducible << ",\n  \"truncated_by_time\": " << (truncated ? "true" : "false")
      << ",\n  \"rule\": " << jsonStr(info.rule) << ",\n  \"classes\": {";
    bool first = true;
    for(size_t i = 0; i < NTAG && sh->tags[i].name[0]; ++i)
    {
      f << (first ? "" : ",") << "\n   " << jsonStr(sh->tags[i].name) << ": " << sh->tags[i].count;
      first = false;
    }
    f << "\n  },\n  \"samples\": [";
    first = true;
    for(size_t i = 0; i < NSAMPLE; ++i)
    {
      if(!sh->samples[i][0]) continue;
      f << (first ? "" : ",") << "\n   " << jsonStr(sh->samples[i]);
      first = false;
    }
    f << "\n  ]\n },\n \"wall_s\": " << elapsed() << ",\n \"violations\": " << violations << "\n}\n";
  }
  std::cout << info.id << ": " << sh->evaluations << " evaluations, " << sh->distinct << " distinct non-trivial, "
            << sh->discarded << " discarded, " << irreproducible << " irreproducible, " << elapsed() << " s\n";
  if(violations)
  {
    std::cout << "VIOLATION property=" << info.id << " replay=" << violationPath << std::endl;
    return 1;
  }
  if(irreproducible)
    std::cout << "note: " << irreproducible << " failures did not reproduce\n";
  return 0;
}
#endif
