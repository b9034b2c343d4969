// C09: test programs obey their environment configuration and rerun identically.
#include "C09.h"
#include <algorithm>
#include <fcntl.h>
#include <map>
#include <rapidcheck.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;
using namespace pbt;
using namespace c09;

namespace {
struct Run {
  int status = -1; // exit status
  std::string out, err;
};
std::string slurp(int fd) {
  std::string r;
  char buf[8192];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t k; (k = read(fd, buf, sizeof buf)) > 0;)
    r.append(buf, size_t(k));
  close(fd);
  return r;
}
// Runs the program; a null configuration leaves the variable unset.
Run run(Ctx &c, const std::string &spec, const std::string *params) {
  const int o = memfd_create("out", 0), e = memfd_create("err", 0);
  std::vector<std::string> env;
  for (char **p = environ; *p; p++)
    if (strncmp(*p, "RC_PARAMS=", 10) && strncmp(*p, "ASAN_OPTIONS=", 13))
      env.push_back(*p);
  const char *asan = getenv("ASAN_OPTIONS");
  env.push_back(cat("ASAN_OPTIONS=", asan ? asan : "", ":detect_leaks=0"));
  if (params)
    env.push_back("RC_PARAMS=" + *params);
  std::vector<char *> envp;
  for (auto &x : env)
    envp.push_back(&x[0]);
  envp.push_back(nullptr);
  std::string a0 = "program", a1 = "--helper", a2 = spec;
  char *argv[] = {&a0[0], &a1[0], &a2[0], nullptr};
  const pid_t pid = fork();
  REQ(pid >= 0, "fork");
  if (pid == 0) {
    dup2(o, 1);
    dup2(e, 2);
    execve("/proc/self/exe", argv, envp.data());
    _exit(126);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Run r;
  r.out = slurp(o);
  r.err = slurp(e);
  REQ(WIFEXITED(status) && WEXITSTATUS(status) != 126, "the program died (status ", status, ") with RC_PARAMS ", params ? quote(*params) : "unset", ": ",
      r.err.substr(r.err.size() > 1500 ? r.err.size() - 1500 : 0));
  r.status = WEXITSTATUS(status);
  c.count(1);
  return r;
}

// What each property did and what was said about it.
struct Section {
  int succ = 0, disc = 0;
  bool fail = false;
  std::vector<std::string> cases;
  std::string text;
};
std::vector<Section> sections(Ctx &c, const Run &r, size_t n) {
  std::vector<Section> out(n);
  std::istringstream is(r.out);
  for (std::string l; std::getline(is, l);) {
    const size_t i = size_t(std::atoi(l.c_str()));
    REQ(i < n, "line ", l);
    out[i].cases.push_back(l);
    out[i].succ += l.back() == 'S';
    out[i].disc += l.back() == 'D';
    out[i].fail |= l.back() == 'F';
  }
  for (size_t i = 0; i < n; i++) {
    const std::string head = cat("\n@@@ ", i, "\n"), tail = i + 1 < n ? cat("\n@@@ ", i + 1, "\n") : std::string("\n@@@ end\n");
    const auto a = r.err.find(head), b = r.err.find(tail);
    REQ(a != std::string::npos && b != std::string::npos && a < b, "stderr ", quote(r.err));
    out[i].text = r.err.substr(a + head.size(), b - a - head.size());
  }
  return out;
}
// The report from its first line on, without marks before it.
std::string report(Ctx &c, const std::string &text) {
  for (const char *k : {"Falsifiable after ", "Gave up after ", "OK, passed "}) {
    const auto at = text.find(k);
    if (at != std::string::npos && (at == 0 || text[at - 1] == '\n'))
      return text.substr(at);
  }
  c.fail(cat("no report in ", quote(text)));
}
std::string configLine(const Run &r) {
  const char *k = "Using configuration: ";
  const auto a = r.err.find(k);
  if (a == std::string::npos)
    return "";
  const auto b = r.err.find('\n', a);
  return r.err.substr(a + strlen(k), b - a - strlen(k));
}
std::string reproduceLine(const Run &r) {
  const char *k = "\nRC_PARAMS=\"";
  const auto a = r.err.rfind(k);
  if (a == std::string::npos || a < r.err.find("\n@@@ end\n"))
    return "";
  const auto b = r.err.find('\n', a + 1);
  std::string v = r.err.substr(a + strlen(k), b - a - strlen(k));
  return !v.empty() && v.back() == '"' ? v.substr(0, v.size() - 1) : std::string();
}
bool shellSafe(const std::string &v) {
  return v.find_first_of("\"$`\\\n!") == std::string::npos;
}

std::vector<Prop> anyProgram(Src &s) {
  std::vector<Prop> ps;
  const bool crowd = s.draw(19) == 19;
  const size_t n = crowd ? 10 + s.draw(60) : 1 + s.draw(3);
  for (size_t i = 0; i < n; i++) {
    Prop p;
    if (crowd) {
      p.name = s.draw(9) == 9 ? "" : cat("one of many, ", i);
      p.kind = s.flag() ? 5 : 4;
      p.fail = int(s.draw(4));
      p.thr = int(s.draw(3));
      ps.push_back(p);
      continue;
    }
    switch (s.draw(4)) {
    case 0: break; // no name
    case 1: p.name = cat("p", i, " ", s.ascii(30)); break;
    case 2: p.name = cat(i, " \"quoted\" = \\ ", i); break;
    default: p.name = cat("property ", i); break;
    }
    if (!p.name.empty() && s.draw(9) == 9)
      p.name += std::string(1 + s.draw(600), 'n');
    p.kind = int(s.draw(kKinds - 1));
    if (s.flag()) {
      p.fail = 1 + int(s.draw(4));
      // Shrinking large containers takes a number of tries like their size to the fourth.
      p.thr = int(s.draw(3) ? s.draw(18) : 200 + s.draw(1000));
    }
    if (s.draw(3) == 0) {
      p.disc = 1 + int(s.draw(1));
      p.mod = int(s.draw(6) ? 2 + s.draw(4) : 1);
    }
    p.tag = s.draw(2) == 0;
    p.log = s.draw(3) == 0;
    ps.push_back(p);
  }
  return ps;
}
struct Settings {
  bool seed = true;
  uint64_t seedValue = 0;
  int success = -1, size = -1, ratio = -1, noshrink = -1, progress = -1, shrinking = -1;
  std::string text(Src *layout) const {
    std::vector<std::string> kv;
    const auto put = [&](const char *k, const std::string &v) {
      if (layout && layout->draw(5) == 0)
        kv.push_back(cat(k, "=\"", v, "\""));
      else
        kv.push_back(cat(k, "=", v));
    };
    if (seed) put("seed", cat(seedValue));
    if (success >= 0) put("max_success", cat(success));
    if (size >= 0) put("max_size", cat(size));
    if (ratio >= 0) put("max_discard_ratio", cat(ratio));
    if (noshrink >= 0) put("noshrink", cat(noshrink));
    if (progress >= 0) put("verbose_progress", cat(progress));
    if (shrinking >= 0) put("verbose_shrinking", cat(shrinking));
    std::string out;
    while (!kv.empty()) {
      const size_t i = layout ? layout->below(kv.size()) : 0;
      out += (out.empty() ? "" : layout && layout->draw(5) == 0 ? "  " : " ") + kv[i];
      kv.erase(kv.begin() + long(i));
    }
    return out;
  }
  int wanted() const { return success < 0 ? 100 : success; }
};
Settings anySettings(Src &s) {
  Settings k;
  k.seed = s.draw(9) != 9;
  k.seedValue = s.word();
  if (s.draw(3)) k.success = int(s.draw(3) ? s.draw(60) : s.draw(250));
  if (s.draw(2) == 0) k.size = int(s.draw(120));
  if (s.draw(2) == 0) k.ratio = int(s.draw(15));
  if (s.draw(3) == 0) k.noshrink = int(s.draw(1));
  if (s.draw(2) == 0) k.progress = int(s.draw(1));
  if (s.draw(2) == 0) k.shrinking = int(s.draw(1));
  return k;
}
std::string describe(const std::vector<Prop> &ps, const std::string &params) {
  std::string r = cat("RC_PARAMS ", quote(params), " program");
  for (auto &p : ps)
    r += cat(" [", quote(p.name), " kind ", p.kind, " fail ", p.fail, " from ", p.thr, " discard ", p.disc, "/", p.mod, p.tag ? " tags" : "", "]");
  return r;
}
// Exit status and reports against the ledger; returns which failed.
std::vector<bool> verdicts(Ctx &c, const Run &r, const std::vector<Section> &s, int wanted, const std::string &what) {
  std::vector<bool> failed;
  bool any = false;
  for (size_t i = 0; i < s.size(); i++) {
    const std::string rep = report(c, s[i].text);
    const bool gaveUp = !s[i].fail && s[i].succ < wanted;
    const char *must = s[i].fail ? "Falsifiable after " : gaveUp ? "Gave up after " : "OK, passed ";
    REQ(rep.compare(0, strlen(must), must) == 0, "property ", i, " with ", s[i].succ, " successes, ", s[i].disc, " discards, ", s[i].fail ? "a failure" : "no failure",
        " reported ", quote(rep), ": ", what);
    if (!s[i].fail)
      REQ(s[i].succ <= wanted, "property ", i, " had ", s[i].succ, " successes instead of ", wanted, ": ", what);
    failed.push_back(s[i].fail);
    any |= s[i].fail || gaveUp;
  }
  REQ(r.status == (any ? 1 : 0), "exit status ", r.status, ": ", what);
  return failed;
}
} // namespace

FACET(reruns, 6) {
  const auto ps = anyProgram(s);
  const Settings k = anySettings(s);
  const std::string spec = encode(ps), params = k.text(&s), what = describe(ps, params);
  const bool unset = params.empty() && s.flag();
  const Run a = run(c, spec, unset ? nullptr : &params);
  const auto sa = sections(c, a, ps.size());
  const auto failed = verdicts(c, a, sa, k.wanted(), what);
  int failures = 0, named = 0;
  for (size_t i = 0; i < ps.size(); i++) {
    failures += failed[i];
    named += failed[i] && !ps[i].name.empty();
    const std::string head = ps[i].name.empty() ? "" : cat("\n- ", ps[i].name, "\n");
    REQ(sa[i].text.find(head) != std::string::npos, "the name is not in ", quote(sa[i].text), ": ", what);
  }
  c.nontrivial(failures > 0 && ps.size() > 1);
  c.label(cat("failures ", failures));
  // The configuration is printed once, before anything runs.
  const std::string conf = configLine(a);
  REQ(!conf.empty() && shellSafe(conf), "printed configuration ", quote(conf), ": ", what);
  REQ(a.err.find("Using configuration: ", a.err.find("Using configuration: ") + 1) == std::string::npos, "configuration printed twice: ", what);
  if (k.seed) { // the same environment again
    const Run b = run(c, spec, &params);
    REQ(b.status == a.status, "exit status ", b.status, " after ", a.status, ": ", what);
    REQ(b.out == a.out, "other cases on the second run: ", what);
    REQ(b.err == a.err, "another report on the second run: ", quote(b.err), " after ", quote(a.err), ": ", what);
  }
  else { // a fresh seed every time
    const Run b = run(c, spec, unset ? nullptr : &params);
    const std::string other = configLine(b);
    REQ(other.find("seed=") != std::string::npos && other != conf, "two runs without a configured seed used ", quote(conf), " and ", quote(other), ": ", what);
    c.label("fresh seed");
  }
  { // what was printed
    const Run b = run(c, spec, &conf);
    REQ(b.status == a.status && b.out == a.out, "other cases with the printed configuration ", quote(conf), ": ", what);
    REQ(b.err == a.err, "another report with the printed configuration ", quote(conf), ": ", what);
  }
  // Replays.
  const std::string repro = reproduceLine(a);
  REQ(repro.empty() == (named == 0), named, " named failures but the reproduction text is ", quote(repro), ": ", what, " stderr ", quote(a.err));
  if (!repro.empty()) {
    REQ(shellSafe(repro), "reproduction text ", quote(repro));
    std::string replay = repro;
    switch (s.draw(4)) { // other settings do not matter
    case 0: replay += cat(" seed=", s.anyBits()); break;
    case 1: replay = cat("max_size=", s.draw(5), " max_success=", 1 + s.draw(3), " ") + replay; break;
    case 2: replay += " verbose_progress=1 verbose_shrinking=1"; break;
    default: break;
    }
    const Run b = run(c, spec, &replay);
    REQ_EQ(b.status, 1, "exit status of the replay ", quote(replay), ": ", what);
    const auto sb = sections(c, b, ps.size());
    for (size_t i = 0; i < ps.size(); i++) {
      const std::string ra = report(c, sa[i].text), rb = report(c, sb[i].text);
      if (failed[i] && !ps[i].name.empty()) {
        REQ(sb[i].fail, "property ", i, " did not fail in the replay: ", what, " said ", quote(rb));
        REQ(rb.substr(rb.find('\n')) == ra.substr(ra.find('\n')), "property ", i, " failed with ", quote(rb), " in the replay instead of ", quote(ra), ": ", what);
        // "and N shrinks"
        const auto shrinks = [](const std::string &t) {
          const auto l = t.substr(0, t.find('\n'));
          const auto at = l.find(" and ");
          return at == std::string::npos ? std::string() : l.substr(at);
        };
        REQ(shrinks(ra) == shrinks(rb), "property ", i, quote(rb), " after ", quote(ra), ": ", what);
        REQ(sb[i].cases.back() == sa[i].cases.back(), "property ", i, " last ran ", sb[i].cases.back(), " instead of ", sa[i].cases.back(), ": ", what);
      } else {
        REQ(sb[i].cases.empty(), "property ", i, " was not skipped in the replay: ", what);
        REQ(rb.compare(0, 3, "OK,") == 0, "property ", i, " skipped but reported ", quote(rb), ": ", what);
      }
    }
    c.label("replay");
  }
  c.sample(cat(what, " -> ", failures, " failures, status ", a.status));
}

// Settings that only change the reporting or the shrinking change nothing else.
FACET(settings, 3) {
  const auto ps = anyProgram(s);
  Settings k = anySettings(s);
  k.seed = true;
  const std::string spec = encode(ps);
  const std::string first = k.text(&s);
  const Run a = run(c, spec, &first);
  const auto sa = sections(c, a, ps.size());
  const auto failed = verdicts(c, a, sa, k.wanted(), describe(ps, first));
  Settings l = k;
  const int how = int(s.draw(2));
  if (how == 0)
    l.progress = k.progress == 1 ? 0 : 1;
  if (how <= 1)
    l.shrinking = k.shrinking == 1 ? 0 : 1;
  if (how == 2)
    l.noshrink = k.noshrink == 1 ? 0 : 1;
  const std::string second = l.text(&s);
  const Run b = run(c, spec, &second);
  const auto sb = sections(c, b, ps.size());
  const std::string what = cat("then ", quote(second), " ", describe(ps, first));
  const auto failedToo = verdicts(c, b, sb, l.wanted(), what);
  REQ(failed == failedToo, "verdicts changed: ", what);
  REQ_EQ(a.status, b.status, "exit status changed: ", what);
  for (size_t i = 0; i < ps.size(); i++) {
    const std::string ra = report(c, sa[i].text), rb = report(c, sb[i].text);
    if (how != 2) {
      REQ(sa[i].cases == sb[i].cases, "cases of property ", i, " changed: ", what);
      REQ(ra == rb, "report of property ", i, " changed from ", quote(ra), " to ", quote(rb), ": ", what);
    } else {
      const auto upTo = [](const std::vector<std::string> &v) {
        const auto it = std::find_if(v.begin(), v.end(), [](const std::string &x) { return x.back() == 'F'; });
        return std::vector<std::string>(v.begin(), it == v.end() ? it : it + 1);
      };
      REQ(upTo(sa[i].cases) == upTo(sb[i].cases), "search of property ", i, " changed: ", what);
      const Settings &none = k.noshrink == 1 ? k : l;
      const auto &sn = none.noshrink == 1 ? (&none == &k ? ra : rb) : ra;
      if (none.noshrink == 1)
        REQ(sn.substr(0, sn.find('\n')).find(" shrink") == std::string::npos, "shrunk although told not to: ", quote(sn), ": ", what);
    }
    // Progress marks: one for each case before the failure.
    const auto marks = [&](const Section &x, const std::string &rep, const Settings &z) {
      if (z.progress != 1 || x.fail)
        return;
      const auto at = x.text.size() - rep.size();
      std::string pre = x.text.substr(0, at);
      REQ(!pre.empty() && pre.back() == '\n', "marks in ", quote(x.text), ": ", what);
      pre.pop_back();
      const std::string line = pre.substr(pre.find_last_of('\n') + 1);
      const auto dots = std::count(line.begin(), line.end(), '.'), xs = std::count(line.begin(), line.end(), 'x');
      REQ(dots == x.succ && xs <= x.disc && size_t(dots + xs) == line.size(), "marks ", quote(line), " for ", x.succ, " successes and ", x.disc, " discards: ", what);
      c.label("marks");
    };
    marks(sa[i], ra, k);
    marks(sb[i], rb, l);
  }
  c.nontrivial(ps.size() > 1);
}

// Malformed configurations stop the program before any property runs.
FACET(malformed, 2) {
  auto ps = anyProgram(s);
  for (auto &p : ps)
    p.fail = p.disc = 0; // would succeed
  const std::string spec = encode(ps);
  Settings k = anySettings(s);
  static const std::vector<std::string> counts{"max_success", "max_size", "max_discard_ratio"};
  static const std::vector<std::string> flags{"noshrink", "verbose_progress", "verbose_shrinking"};
  std::string bad;
  switch (s.draw(8)) {
  case 0: bad = cat(s.pick(counts), "=-", 1 + s.draw(100000)); break;
  case 1: bad = cat(s.pick(counts), "=", s.oneOf<const char *>({"x", "", "\"\"", "many", "-", "+", "99999999999999999999", "2147483648"})); break;
  case 2: bad = cat(s.pick(flags), "=", s.oneOf<const char *>({"2", "yes", "true", "", "-1", "on"})); break;
  case 3: bad = cat("seed=", s.oneOf<const char *>({"x", "", "\"\"", "99999999999999999999999", "seed", "_"})); break;
  case 4: bad = cat("seed=\"", s.draw(1000)); break; // quote left open
  case 5: bad = cat(s.pick(counts), "=, ", s.draw(9)); break;
  case 6: bad = cat("reproduce=", s.oneOf<const char *>({"", "!", "AA!A", "_____", "=", "BMjUhBXakNEalN2aFhXYtBHbl9CZ", "zzzzzzzzzzzz"})); break;
  case 7: { // a damaged reproduction
    auto q = ps;
    for (auto &p : q) {
      p.fail = 1;
      p.thr = 0;
      p.kind = 0;
      p.name += "n";
    }
    const std::string one = "seed=1";
    const std::string repro = reproduceLine(run(c, encode(q), &one));
    REQ(repro.size() > 40, "no reproduction text: ", quote(repro));
    bad = repro.substr(0, 11 + s.draw(repro.size() - 12)); // cut short
    break;
  }
  default: bad = "seed=1 max_success"; break; // placeholder, see below
  }
  if (bad == "seed=1 max_success")
    bad = cat("max_success='", s.draw(50)); // the other quote left open
  std::string params = k.text(&s);
  // A later key must not repair it.
  s.draw(1);
  const auto key = bad.substr(0, bad.find('='));
  if (params.find(key + "=") != std::string::npos || bad.find_first_of("\"'") != std::string::npos)
    params.clear();
  params = params.empty() ? bad : s.flag() ? params + " " + bad : bad + " " + params;
  const Run r = run(c, spec, &params);
  const std::string what = describe(ps, params);
  REQ(r.status != 0, "accepted: ", what, " stderr ", quote(r.err));
  REQ(r.out.empty(), "cases ran: ", what);
  REQ(r.err.find("OK, passed") == std::string::npos && r.err.find("@@@ 1") == std::string::npos && r.err.find("@@@ end") == std::string::npos, "properties ran: ", what);
  REQ(r.err.find("onfiguration") != std::string::npos, "the error is not explained: ", quote(r.err), " ", what);
  c.nontrivial();
  c.sample(quote(params));
}
