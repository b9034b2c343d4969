#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace pbt {
namespace {

std::vector<Facet> &facets() {
  static std::vector<Facet> f;
  return f;
}
bool g_thorough = false;
uint64_t g_digest = 0x9E3779B97F4A7C15ULL;
std::map<std::string, std::string> g_known;
Ctx *g_ctx = nullptr;

// Live copy of the running case, shared with the driver so that the case can
// be recovered when the process dies.
struct Live {
  uint64_t caseIndex, facet, count;
  uint64_t words[1];
};
constexpr size_t kLiveWords = 1 << 17;
Live *g_live = nullptr;

uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

std::string jsonStr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o + "\"";
}

double now() {
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

int g_cpuLimit = 40;
void onHang(int) {
  static const char msg[] = "\nPBT-HANG: case exceeded its time limit\n";
  (void)!write(2, msg, sizeof msg - 1);
  _exit(79);
}
void armWatchdog() {
  itimerval t{};
  t.it_value.tv_sec = g_cpuLimit;
  setitimer(ITIMER_PROF, &t, nullptr);
  t.it_value.tv_sec = g_cpuLimit * 5;
  setitimer(ITIMER_REAL, &t, nullptr);
}

} // namespace

Register::Register(const char *name, FacetFn fn, unsigned weight) {
  facets().push_back(Facet{name, fn, weight});
}

void Src::startRng(uint64_t seed) {
  m_mode = RNG;
  for (auto &w : m_state)
    w = splitmix(seed);
  m_rec.clear();
  if (g_live)
    g_live->count = 0;
}
void Src::startTape(std::vector<uint64_t> tape) {
  m_mode = TAPE;
  m_tape = std::move(tape);
  m_pos = 0;
  m_rec.clear();
  if (g_live)
    g_live->count = 0;
}
void Src::startBytes(const uint8_t *d, size_t n) {
  m_mode = BYTES;
  m_data = d;
  m_size = n;
  m_pos = 0;
  m_rec.clear();
  if (g_live)
    g_live->count = 0;
}
uint64_t Src::rng() { // xoshiro256**
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t *s = m_state;
  const uint64_t result = rotl(s[1] * 5, 7) * 9;
  const uint64_t t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return result;
}
uint64_t Src::draw(uint64_t max) {
  uint64_t v = 0;
  if (max != 0) {
    switch (m_mode) {
    case RNG:
      v = rng();
      if (max != ~uint64_t(0))
        v %= max + 1;
      break;
    case TAPE:
      v = m_pos < m_tape.size() ? m_tape[m_pos] : 0;
      m_pos++;
      if (v > max)
        v = max == ~uint64_t(0) ? v : v % (max + 1);
      break;
    case BYTES: {
      int n = 0;
      for (uint64_t m = max; m; m >>= 8)
        n++;
      for (int i = 0; i < n; i++)
        v |= uint64_t(m_pos < m_size ? m_data[m_pos++] : 0) << (8 * i);
      if (v > max)
        v %= max + 1;
      break;
    }
    }
  } else if (m_mode == TAPE) {
    m_pos++;
  }
  if (g_live && m_rec.size() < kLiveWords) {
    g_live->words[m_rec.size()] = v;
    g_live->count = m_rec.size() + 1;
  }
  m_rec.push_back(v);
  return v;
}
uint64_t Src::word() {
  switch (draw(7)) {
  case 0: return draw(16);
  case 1: return draw(255);
  case 2: return uint64_t(1) << draw(63);
  case 3: return (uint64_t(1) << draw(63)) - 1;
  case 4: return ~draw(16);
  case 5: return draw(~uint64_t(0)) >> draw(63);
  case 6: return (uint64_t(1) << draw(63)) + draw(4);
  default: return draw(~uint64_t(0));
  }
}
size_t Src::length(size_t max) {
  if (max == 0)
    return 0;
  switch (draw(3)) {
  case 0: return draw(std::min<size_t>(max, 3));
  case 1: return draw(std::min<size_t>(max, 10));
  default: return draw(max);
  }
}
std::string Src::bytes(size_t maxLen) {
  auto v = list(maxLen, [&] { return static_cast<char>(draw(255)); });
  return std::string(v.begin(), v.end());
}
std::string Src::ascii(size_t maxLen) {
  static const char special[] = "a \"'\\=\t\n0%";
  auto v = list(maxLen, [&] {
    if (draw(1))
      return special[draw(sizeof special - 2)];
    return static_cast<char>(32 + draw(94));
  });
  return std::string(v.begin(), v.end());
}
std::string Src::stretched(std::string text) {
  if (draw(31) != 31)
    return text;
  const size_t at = draw(text.size());
  const size_t n = 1 + draw(draw(3) ? 700 : 9000);
  std::string run(n, static_cast<char>('a' + draw(25)));
  // Not the same character throughout, so that a cut or an exchange shows.
  const uint64_t step = 2 + draw(40);
  for (size_t i = 0; i < n; i += step)
    run[i] = static_cast<char>('A' + (i / step) % 26);
  return text.insert(at, run);
}
uint64_t Src::tapeHash() const {
  uint64_t h = 1469598103934665603ULL;
  for (auto w : m_rec)
    h = hash64(h, w);
  return h;
}
uint64_t hash64(uint64_t h, uint64_t v) {
  uint64_t x = h ^ (v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2));
  return splitmix(x);
}
uint64_t hashStr(const std::string &s) {
  uint64_t h = s.size();
  for (unsigned char ch : s)
    h = hash64(h, ch);
  return h;
}
std::string quote(const std::string &s) { return jsonStr(s); }

void Ctx::fail(const std::string &msg) {
  note(msg);
  throw Abort();
}
void Ctx::note(const std::string &msg) {
  if (!m_failed) {
    m_failed = true;
    m_msg = msg;
  }
}
void Ctx::known(const std::string &id, const std::string &text) {
  if (!g_known.count(id))
    g_known[id] = text;
}
void Ctx::digest(uint64_t v) { g_digest = hash64(g_digest, v); }
void Ctx::digest(const std::string &v) { digest(hashStr(v)); }
bool Ctx::thorough() const { return g_thorough; }

namespace {

// Runs one case. Returns true if it held.
bool runCase(const Facet &f, Src &src, Ctx &ctx) {
  armWatchdog();
  g_ctx = &ctx;
  try {
    f.fn(src, ctx);
  } catch (const Abort &) {
    if (!ctx.m_failed)
      ctx.note("pbt::Abort without a message");
  } catch (const std::exception &e) {
    ctx.note(std::string("escaped exception: ") + e.what());
  } catch (...) {
    ctx.note("escaped exception of unknown type");
  }
  g_ctx = nullptr;
  return !ctx.m_failed;
}

void writeReplay(const std::string &path, const Facet &f,
                 const std::vector<uint64_t> &tape, const std::string &msg) {
  if (path.empty())
    return;
  std::string tmp = path + ".tmp";
  {
    std::ofstream os(tmp);
    os << "{\"mode\": \"tape\", \"facet\": " << jsonStr(f.name)
       << ", \"message\": " << jsonStr(msg) << ", \"tape\": [";
    for (size_t i = 0; i < tape.size(); i++)
      os << (i ? "," : "") << tape[i];
    os << "]}\n";
  }
  rename(tmp.c_str(), path.c_str());
}

bool tryTape(const Facet &f, const std::vector<uint64_t> &t,
             std::vector<uint64_t> &rec, std::string &msg) {
  Src src;
  src.startTape(t);
  Ctx ctx;
  bool ok = runCase(f, src, ctx);
  if (!ok) {
    rec = src.recorded();
    msg = ctx.m_msg;
  }
  return !ok;
}

bool better(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size())
    return a.size() < b.size();
  return a < b;
}

void shrink(const Facet &f, std::vector<uint64_t> best, std::string msg,
            const std::string &path) {
  const double t0 = now();
  int runs = 0;
  auto budget = [&] { return runs < 4000 && now() - t0 < 25; };
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (!budget())
      return false;
    runs++;
    std::vector<uint64_t> rec;
    std::string m;
    if (tryTape(f, cand, rec, m) && better(rec, best)) {
      best = rec;
      msg = m;
      writeReplay(path, f, best, msg);
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && budget()) {
    progress = false;
    for (size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0 && budget();) {
        if (i + k > best.size())
          continue;
        auto cand = best;
        cand.erase(cand.begin() + i, cand.begin() + i + k);
        if (attempt(cand))
          progress = true;
      }
    }
    for (size_t i = 0; i < best.size() && budget(); i++) {
      if (best[i] == 0)
        continue;
      auto cand = best;
      cand[i] = 0;
      if (attempt(cand)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0;
      while (i < best.size() && lo + 1 < best[i] && budget()) {
        cand = best;
        cand[i] = lo + (best[i] - lo) / 2;
        const auto mid = cand[i];
        if (attempt(cand))
          progress = true;
        else
          lo = mid;
      }
    }
  }
  writeReplay(path, f, best, msg);
  fprintf(stderr, "PBT-SHRUNK facet=%s words=%zu runs=%d: %s\n", f.name,
          best.size(), runs, msg.c_str());
}

std::vector<uint64_t> readTape(const std::string &path, std::string &facet) {
  std::ifstream is(path);
  std::string all((std::istreambuf_iterator<char>(is)), {});
  std::vector<uint64_t> t;
  auto p = all.find("\"facet\": \"");
  if (p != std::string::npos) {
    p += 10;
    facet = all.substr(p, all.find('"', p) - p);
  }
  p = all.rfind("\"tape\": [");
  if (p != std::string::npos) {
    const char *q = all.c_str() + p + 9;
    while (*q && *q != ']') {
      char *e;
      t.push_back(strtoull(q, &e, 10));
      if (e == q)
        break;
      q = *e == ',' ? e + 1 : e;
    }
  }
  return t;
}

struct Stats {
  uint64_t cases = 0, extra = 0, nontrivialCases = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, uint64_t> labels, perFacet;
  std::vector<std::string> samples;
};

void writeStats(const std::string &path, const Stats &st) {
  if (path.empty())
    return;
  {
    std::ofstream hs(path + ".hashes", std::ios::binary);
    for (uint64_t h : st.distinct)
      hs.write(reinterpret_cast<const char *>(&h), sizeof h);
  }
  std::ofstream os(path + ".tmp");
  os << "{\"cases\": " << st.cases << ", \"extra\": " << st.extra
     << ", \"nontrivial\": " << st.nontrivialCases
     << ", \"distinct_nontrivial\": " << st.distinct.size()
     << ", \"digest\": \"" << g_digest << "\", \"labels\": {";
  bool first = true;
  for (auto &p : st.labels) {
    os << (first ? "" : ", ") << jsonStr(p.first) << ": " << p.second;
    first = false;
  }
  os << "}, \"facets\": {";
  first = true;
  for (auto &p : st.perFacet) {
    os << (first ? "" : ", ") << jsonStr(p.first) << ": " << p.second;
    first = false;
  }
  os << "}, \"known\": {";
  first = true;
  for (auto &p : g_known) {
    os << (first ? "" : ", ") << jsonStr(p.first) << ": " << jsonStr(p.second);
    first = false;
  }
  os << "}, \"samples\": [";
  first = true;
  for (auto &s : st.samples) {
    os << (first ? "" : ", ") << jsonStr(s);
    first = false;
  }
  os << "]}\n";
  os.close();
  rename((path + ".tmp").c_str(), path.c_str());
}

std::string arg(int argc, char **argv, const char *name, const char *def) {
  for (int i = 1; i + 1 < argc; i++)
    if (std::string(argv[i]) == name)
      return argv[i + 1];
  return def;
}

const Facet &chooseFacet(uint64_t r) {
  uint64_t total = 0;
  for (auto &f : facets())
    total += f.weight;
  r %= total;
  for (auto &f : facets()) {
    if (r < f.weight)
      return f;
    r -= f.weight;
  }
  return facets()[0];
}

void setupSignals() {
  struct sigaction sa {};
  sa.sa_handler = onHang;
  sigaction(SIGPROF, &sa, nullptr);
  sigaction(SIGALRM, &sa, nullptr);
}

void sortFacets() {
  std::sort(facets().begin(), facets().end(),
            [](const Facet &a, const Facet &b) {
              return std::string(a.name) < b.name;
            });
}

} // namespace

namespace {
HelperFn &helper() {
  static HelperFn fn = nullptr;
  return fn;
}
} // namespace
RegisterHelper::RegisterHelper(HelperFn fn) { helper() = fn; }

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int *argc, char ***argv) {
  if (*argc > 1 && !strcmp((*argv)[1], "--helper") && helper())
    exit(helper()(*argc - 2, *argv + 2));
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static bool init = false;
  static std::string path;
  static uint64_t cases = 0;
  static const char *only = nullptr;
  if (!init) {
    init = true;
    sortFacets();
    setupSignals();
    g_thorough = true;
    if (const char *p = getenv("PBT_REPLAY_OUT"))
      path = p;
    only = getenv("PBT_FACET");
    if (const char *p = getenv("PBT_CPU"))
      g_cpuLimit = atoi(p);
    if (const char *p = getenv("PBT_LIVE")) {
      int fd = open(p, O_RDWR | O_CREAT, 0644);
      if (ftruncate(fd, sizeof(Live) + 8 * kLiveWords) == 0)
        g_live = static_cast<Live *>(mmap(nullptr, sizeof(Live) + 8 * kLiveWords,
                                          PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    }
  }
  if (size < 2)
    return 0;
  size_t fi = data[0] % facets().size();
  if (only)
    for (size_t i = 0; i < facets().size(); i++)
      if (std::string(facets()[i].name) == only)
        fi = i;
  const Facet &f = facets()[fi];
  if (g_live) {
    g_live->caseIndex = ++cases;
    g_live->facet = fi;
  }
  Src src;
  src.startBytes(data + 1, size - 1);
  Ctx ctx;
  if (!runCase(f, src, ctx)) {
    writeReplay(path, f, src.recorded(), ctx.m_msg);
    shrink(f, src.recorded(), ctx.m_msg, path);
    fprintf(stderr, "PBT-FAIL facet=%s: %s\n", f.name, ctx.m_msg.c_str());
    _exit(70);
  }
  return 0;
}
#else
static long rssMb() {
  long pages = 0, rss = 0;
  if (FILE *f = fopen("/proc/self/statm", "r")) {
    if (fscanf(f, "%ld %ld", &pages, &rss) != 2)
      rss = 0;
    fclose(f);
  }
  return rss * 4096 / (1024 * 1024);
}
int pbtMain(int argc, char **argv) {
  sortFacets();
  setupSignals();
  g_cpuLimit = atoi(arg(argc, argv, "--cpu", "40").c_str());
  g_thorough = arg(argc, argv, "--tier", "quick") == "thorough";
  const auto replay = arg(argc, argv, "--replay", "");
  const auto replayOut = arg(argc, argv, "--replay-out", "");
  const auto livePath = arg(argc, argv, "--live", "");
  if (!livePath.empty()) {
    int fd = open(livePath.c_str(), O_RDWR | O_CREAT, 0644);
    const size_t sz = sizeof(Live) + 8 * kLiveWords;
    if (fd >= 0 && ftruncate(fd, sz) == 0) {
      void *m = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED)
        g_live = static_cast<Live *>(m);
    }
  }
  if (arg(argc, argv, "--list", "") == "1") {
    for (size_t i = 0; i < facets().size(); i++)
      printf("%zu %s\n", i, facets()[i].name);
    return 0;
  }
  if (!replay.empty()) {
    std::string facet;
    auto tape = readTape(replay, facet);
    for (auto &f : facets()) {
      if (facet == f.name) {
        Src src;
        src.startTape(tape);
        Ctx ctx;
        ctx.m_wantSample = true;
        bool ok = runCase(f, src, ctx);
        printf("facet=%s held=%d\n%s\n", f.name, ok,
               ok ? ctx.m_sample.c_str() : ctx.m_msg.c_str());
        for (auto &p : g_known)
          printf("known=%s %s\n", p.first.c_str(), p.second.c_str());
        return ok ? 0 : 70;
      }
    }
    fprintf(stderr, "unknown facet %s\n", facet.c_str());
    return 2;
  }
  const uint64_t seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), 0, 10);
  const uint64_t cases =
      strtoull(arg(argc, argv, "--cases", "1000").c_str(), 0, 10);
  const double timeCap = atof(arg(argc, argv, "--time", "30").c_str());
  const auto only = arg(argc, argv, "--facet", "");
  const auto statsPath = arg(argc, argv, "--stats", "");
  Stats st;
  const double t0 = now();
  int rc = 0;
  for (uint64_t i = 0; i < cases && now() - t0 < timeCap; i++) {
    // The sanitizer keeps some memory for good: end the run before its limit.
    if (i % 512 == 511 && rssMb() > 2600)
      break;
    uint64_t x = seed * 0x9E3779B97F4A7C15ULL + i;
    const uint64_t caseSeed = splitmix(x);
    const Facet *f = &chooseFacet(splitmix(x) >> 16);
    if (!only.empty())
      for (auto &g : facets())
        if (only == g.name)
          f = &g;
    if (g_live) {
      g_live->caseIndex = i;
      g_live->facet = f - &facets()[0];
    }
    Src src;
    src.startRng(caseSeed);
    Ctx ctx;
    // Sample with decreasing frequency.
    ctx.m_wantSample = st.perFacet[f->name] < 2 || (i & (i - 1)) == 0;
    const bool ok = runCase(*f, src, ctx);
    st.cases++;
    st.extra += ctx.m_extra;
    st.perFacet[f->name]++;
    for (auto &l : ctx.m_labels)
      st.labels[std::string(f->name) + ":" + l]++;
    if (ctx.m_nontrivial) {
      st.nontrivialCases++;
      if (st.distinct.size() < 500000)
        st.distinct.insert(hash64(hashStr(f->name), src.tapeHash()));
    }
    if (!ctx.m_sample.empty() && st.samples.size() < 40)
      st.samples.push_back(std::string(f->name) + ": " +
                           ctx.m_sample.substr(0, 1500));
    if (!ok) {
      fprintf(stderr, "PBT-FAIL facet=%s case=%llu: %s\n", f->name,
              static_cast<unsigned long long>(i), ctx.m_msg.c_str());
      writeStats(statsPath, st);
      writeReplay(replayOut, *f, src.recorded(), ctx.m_msg);
      if (arg(argc, argv, "--shrink", "1") == "1")
        shrink(*f, src.recorded(), ctx.m_msg, replayOut);
      rc = 70;
      break;
    }
  }
  writeStats(statsPath, st);
  fflush(stdout);
  return rc;
}
#endif
} // namespace pbt

#ifndef PBT_FUZZ
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "--helper") && pbt::helper())
    return pbt::helper()(argc - 2, argv + 2);
  return pbt::pbtMain(argc, argv);
}
#endif
