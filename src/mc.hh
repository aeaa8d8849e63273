// Bounded-exhaustive driver.  A check registers families; a family is a finite, explicitly indexed space
// of cases.  Every index of every family is executed, in forked worker processes (so that an abort, a
// crash or an endless loop of the code under test costs one case and is reported as such).
// A failing case is re-executed in a fresh process before it is reported.
#pragma once
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <boost/log/core.hpp>

namespace mc {
  using u64 = unsigned long long;
  struct Slot {                         // one per worker, in shared memory
    volatile u64 cases, nontrivial, states, transitions, traces, evaluations;
    volatile u64 curIdx; volatile u64 busySince;   // ms; 0 = idle
    volatile char key[4000];
    volatile u64 extra[16], maxMs;
  };
  struct Case {
    Slot *s; u64 idx; bool verbose = false;
    std::vector<std::string> fails; std::string sampleText;
    void key(const std::string &k) {    // identifies the case, set before calling the code under test
      size_t n = std::min<size_t>(k.size(), sizeof(s->key) - 1);
      memcpy((void *) s->key, k.data(), n); s->key[n] = 0;
    }
    void fail(const std::string &m) { if (fails.size() < 3) fails.push_back(m); if (verbose) std::cerr << "FAIL: " << m << "\n"; }
    bool failed() const { return !fails.empty(); }
    void states(u64 n = 1) { s->states = s->states + n; }
    void transitions(u64 n = 1) { s->transitions = s->transitions + n; }
    void traces(u64 n = 1) { s->traces = s->traces + n; }       // traces / states of the model compared with the implementation
    void nontrivial() { s->nontrivial = s->nontrivial + 1; }
    void extra(int k, u64 n = 1) { s->extra[k] = s->extra[k] + n; }
    void sample(const std::string &t) { sampleText = t; }
  };
  struct Family {
    std::string name; u64 total; std::function<void(u64, Case &)> run;
    std::string bound;                  // human description of the enumerated space
    int caseTimeout = 60;               // seconds
    u64 chunk = 0;
  };
  inline u64 nowMs() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
  inline std::string esc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n"; else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
      else r += c;
    }
    return r;
  }

  struct Driver {
    std::string prop, tier = "quick", verif = "/verif", statesMean, transMean, tracesMean;
    long seed = 1; int jobs = 8; double budget = 600;
    std::vector<Family> fams;
    std::vector<std::string> assumptions;
    std::map<int, std::string> extraNames;
    bool thorough() const { return tier == "thorough"; }
    void add(const std::string &n, u64 total, const std::string &bound, std::function<void(u64, Case &)> f, int to = 60, u64 chunk = 0) {
      if (!thorough()) to = std::min(to, 60);   // a hang has to be found and confirmed within the time of a quick check
      fams.push_back({n, total, std::move(f), bound, to, chunk});
    }
    struct Fail { std::string fam; u64 start, idx; std::string key, msg; };

    static std::string slurp(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
    static std::string lastLine(const std::string &p) {
      std::string t = slurp(p); std::string last, l; std::istringstream in(t);
      while (std::getline(in, l)) if (!l.empty()) last = l;
      return last.substr(0, 500);
    }

    // child: run [from,to) of family f; report failures on fd as lines
    void child(const Family &f, u64 start, u64 from, u64 to, Slot *s, int fd, const std::string &errFile) {
      int e = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      if (e >= 0) { dup2(e, 2); close(e); }
      int n = open("/dev/null", O_WRONLY); if (n >= 0) { dup2(n, 1); close(n); }
      boost::log::core::get()->set_logging_enabled(false);
      for (u64 i = from; i < to; ++i) {
        s->curIdx = i; s->key[0] = 0; s->busySince = nowMs();
        Case c{s, i};
        try { f.run(i, c); }
        catch (const std::exception &ex) { c.fail(std::string("uncaught exception: ") + ex.what()); }
        { u64 now = nowMs(), dt = now - s->busySince; if (dt > s->maxMs) s->maxMs = dt; s->busySince = now; }
        s->cases = s->cases + 1;
        std::string out;
        std::string k((const char *) s->key);
        auto flat = [](std::string m) { for (auto &ch : m) if (ch == '\n' || ch == '\t' || ch == '\r') ch = ' '; return m; };
        for (auto &m : c.fails) out += "F\t" + std::to_string(start) + "\t" + std::to_string(i) + "\t" + flat(k) + "\t" + flat(m) + "\n";
        if (!c.sampleText.empty()) out += "S\t" + flat(c.sampleText) + "\n";
        if (!out.empty()) { size_t o = 0; while (o < out.size()) { ssize_t w = write(fd, out.data() + o, out.size() - o); if (w <= 0) { if (errno == EINTR) continue; break; } o += w; } }
      }
      s->busySince = 0;
      _exit(0);
    }

    struct Work { const Family *f; u64 start, from, to; };
    struct Run { pid_t pid = -1; Work w; int fd = -1; std::string buf; std::string err; };

    void readAll(Run &r, std::vector<Fail> &out, std::vector<std::string> &samples, size_t sampleCap) {
      char b[65536];
      for (;;) {
        ssize_t n = read(r.fd, b, sizeof b);
        if (n > 0) r.buf.append(b, n); else break;
      }
      size_t p;
      while ((p = r.buf.find('\n')) != std::string::npos) {
        std::string l = r.buf.substr(0, p); r.buf.erase(0, p + 1);
        std::vector<std::string> t; std::istringstream is(l); std::string x;
        while (std::getline(is, x, '\t')) t.push_back(x);
        if (t.size() >= 5 && t[0] == "F") out.push_back({r.w.f->name, std::stoull(t[1]), std::stoull(t[2]), t[3], t[4]});
        else if (t.size() >= 2 && t[0] == "S" && samples.size() < sampleCap) samples.push_back(r.w.f->name + ": " + t[1]);
      }
    }

    std::set<std::string> known() {     // "finding: property=<id> case=<key>" lines
      std::set<std::string> r; std::ifstream f(verif + "/known_findings.txt"); std::string l;
      const std::string pre = "finding: property=" + prop + " case=";
      while (std::getline(f, l)) if (l.rfind(pre, 0) == 0) {
        std::string k = l.substr(pre.size()); auto p = k.find(" ## "); if (p != std::string::npos) k = k.substr(0, p);
        while (!k.empty() && (k.back() == ' ' || k.back() == '\r')) k.pop_back();
        r.insert(k);
      }
      return r;
    }

    // run one case (or the chunk prefix that leads to it) in a fresh process; returns failure messages
    std::vector<Fail> confirm(const Fail &f, Slot *slots, const std::string &tmp, bool alone) {
      const Family *fam = nullptr; for (auto &x : fams) if (x.name == f.fam) fam = &x;
      std::vector<Fail> out; std::vector<std::string> smp;
      Slot *s = &slots[jobs]; memset((void *) s, 0, sizeof *s);
      int p[2]; if (pipe(p)) return out;
      fcntl(p[0], F_SETFL, O_NONBLOCK);
      Run r; r.w = {fam, f.start, alone ? f.idx : f.start, f.idx + 1}; r.err = tmp + "/confirm.err";
      r.pid = fork();
      if (!r.pid) { close(p[0]); child(*fam, f.start, r.w.from, r.w.to, s, p[1], r.err); }
      close(p[1]); r.fd = p[0];
      u64 t0 = nowMs(); int st = 0;
      for (;;) {
        pid_t k = waitpid(r.pid, &st, WNOHANG);
        readAll(r, out, smp, 0);
        if (k == r.pid) break;
        u64 lim = (alone ? 2ull : 4ull) * fam->caseTimeout * 1000;
        if (s->busySince && nowMs() - s->busySince > 2ull * fam->caseTimeout * 1000) lim = 0;
        if (nowMs() - t0 > lim && s->busySince && nowMs() - s->busySince > 2ull * fam->caseTimeout * 1000) {
          kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0);
          out.push_back({f.fam, f.start, (u64) s->curIdx, std::string((const char *) s->key), "does not terminate within " + std::to_string(2 * fam->caseTimeout) + " s"});
          close(r.fd); return out;
        }
        usleep(2000);
      }
      readAll(r, out, smp, 0); close(r.fd);
      if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0))
        out.push_back({f.fam, f.start, (u64) s->curIdx, std::string((const char *) s->key),
                       (WIFSIGNALED(st) ? "crash (signal " + std::to_string(WTERMSIG(st)) + "): " : "exit " + std::to_string(WEXITSTATUS(st)) + ": ") + lastLine(r.err)});
      return out;
    }

    int replay(const std::string &file) {
      std::ifstream f(file); std::string l, fam; u64 start = 0, idx = 0; bool alone = true;
      while (std::getline(f, l)) {
        if (l.rfind("family=", 0) == 0) fam = l.substr(7);
        if (l.rfind("start=", 0) == 0) start = std::stoull(l.substr(6));
        if (l.rfind("index=", 0) == 0) idx = std::stoull(l.substr(6));
        if (l.rfind("alone=", 0) == 0) alone = l.substr(6) == "1";
      }
      for (auto &x : fams) if (x.name == fam) {
        Slot s; memset((void *) &s, 0, sizeof s);
        int rc = 0;
        for (u64 i = alone ? idx : start; i <= idx; ++i) {
          Case c{&s, i, i == idx};
          if (i == idx) std::cerr << "replaying " << prop << " " << fam << " #" << idx << "\n";
          try { x.run(i, c); } catch (const std::exception &ex) { c.fail(std::string("uncaught exception: ") + ex.what()); }
          if (i == idx) { std::cerr << "case: " << (const char *) s.key << "\n"; if (c.failed()) rc = 1; }
        }
        std::cerr << (rc ? "violated\n" : "held\n");
        return rc;
      }
      std::cerr << "unknown family " << fam << "\n"; return 2;
    }

    int main(int argc, char **argv) {
      std::string rep; std::string only; long long one = -1;
      for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[++i];
        else if (a == "--tier") tier = argv[++i]; else if (a == "--seed") seed = atol(argv[++i]);
        else if (a == "--verif") verif = argv[++i]; else if (a == "--replay") rep = argv[++i];
        else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--family") only = argv[++i];
        else if (a == "--index") one = atoll(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]);
      }
      boost::log::core::get()->set_logging_enabled(false);
      setup(*this);
      if (!rep.empty()) return replay(rep);
      if (!only.empty()) { std::vector<Family> k; for (auto &f : fams) if (f.name == only) k.push_back(f); fams = k; }
      if (one >= 0 && fams.size() == 1) {
        Slot s; memset((void *) &s, 0, sizeof s); Case c{&s, (u64) one, true}; fams[0].run(one, c);
        std::cerr << "case: " << (const char *) s.key << "\n" << (c.failed() ? "violated\n" : "held\n"); return c.failed();
      }
      u64 t0 = nowMs();
      char tmpl[] = "/tmp/vcheckXXXXXX"; std::string tmp = mkdtemp(tmpl) ? tmpl : "/tmp";
      Slot *slots = (Slot *) mmap(nullptr, sizeof(Slot) * (jobs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      memset((void *) slots, 0, sizeof(Slot) * (jobs + 1));
      auto kn = known();
      std::vector<Fail> fails; std::vector<std::string> samples;
      std::map<std::string, std::string> knownHit;   // key -> message
      u64 unlisted = 0, skipped = 0; bool stop = false; u64 stopAt = 0;
      std::vector<std::string> famJson;
      std::vector<Run> runs(jobs);
      std::deque<Work> queue;
      u64 ms0 = nowMs();
      for (auto &f : fams) {
        u64 ch = f.chunk ? f.chunk : std::max<u64>(1, std::min<u64>(f.total / (jobs * 6) + 1, 200000));
        for (u64 i = 0; i < f.total; i += ch) queue.push_back({&f, i, i, std::min(f.total, i + ch)});
        famJson.push_back("{\"family\":\"" + esc(f.name) + "\",\"cases\":" + std::to_string(f.total) + ",\"space\":\"" + esc(f.bound) + "\"}");
      }
      (void) ms0;
      auto note = [&](std::vector<Fail> &fs) {
        for (auto &x : fs) {
          if (kn.count(x.key)) knownHit.emplace(x.key, x.msg);
          else { ++unlisted; if (fails.size() < 40) fails.push_back(x); }
        }
        fs.clear();
        if (unlisted && !stopAt) stopAt = nowMs() + 2000;
      };
      size_t cap = 12;
      for (;;) {
        bool any = false;
        if (stopAt && nowMs() > stopAt) stop = true;
        if (nowMs() - t0 > budget * 1000) stop = true;
        for (int j = 0; j < jobs; ++j) {
          Run &r = runs[j];
          if (r.pid < 0) {
            if (queue.empty()) continue;
            if (stop) continue;
            r.w = queue.front(); queue.pop_front(); r.buf.clear();
            int p[2]; if (pipe(p)) { perror("pipe"); return 2; }
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            r.err = tmp + "/w" + std::to_string(j) + ".err";
            slots[j].busySince = nowMs();
            r.pid = fork();
            if (!r.pid) { close(p[0]); child(*r.w.f, r.w.start, r.w.from, r.w.to, &slots[j], p[1], r.err); }
            close(p[1]); r.fd = p[0]; any = true; continue;
          }
          any = true;
          std::vector<Fail> got;
          int st = 0; pid_t k = waitpid(r.pid, &st, WNOHANG);
          readAll(r, got, samples, cap);
          u64 bs = slots[j].busySince, now = nowMs();
          bool hang = k != r.pid && bs && now > bs && now - bs > (u64) r.w.f->caseTimeout * 1000;
          if (k != r.pid && stop) { kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); readAll(r, got, samples, cap); close(r.fd); skipped += r.w.to - slots[j].curIdx; r.pid = -1; note(got); continue; }
          if (hang) { kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); k = r.pid; }
          if (k == r.pid) {
            readAll(r, got, samples, cap); close(r.fd);
            bool crash = hang || WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
            if (crash) {
              u64 idx = slots[j].curIdx; std::string key((const char *) slots[j].key);
              std::string m = hang ? "does not terminate within " + std::to_string(r.w.f->caseTimeout) + " s"
                                   : (WIFSIGNALED(st) ? "crash (signal " + std::to_string(WTERMSIG(st)) + "): " : "exit " + std::to_string(WEXITSTATUS(st)) + ": ") + lastLine(r.err);
              got.push_back({r.w.f->name, r.w.start, idx, key, m});
              if (idx + 1 < r.w.to) queue.push_front({r.w.f, idx + 1, idx + 1, r.w.to});
            }
            r.pid = -1;
          }
          note(got);
        }
        if (!any) break;
        usleep(1000);
      }
      for (auto &w : queue) skipped += w.to - w.from;
      // confirm before reporting
      int violations = 0; std::set<std::string> seenKeys; u64 flaky = 0;
      std::string cd = verif + "/build/replay"; mkdir((verif + "/build").c_str(), 0777); mkdir(cd.c_str(), 0777);
      std::ostringstream vio;
      u64 confStart = nowMs();
      for (auto &f : fails) {
        if (violations >= 5 || seenKeys.count(f.fam + f.key)) continue;
        if (violations && nowMs() - confStart > 120000) break;
        bool alone = true;
        auto c = confirm(f, slots, tmp, true);
        bool same = false; for (auto &x : c) if (x.idx == f.idx && !kn.count(x.key)) same = true;
        if (!same) {
          alone = false; c = confirm(f, slots, tmp, false);
          for (auto &x : c) if (x.idx == f.idx && !kn.count(x.key)) same = true;
        }
        if (!same) { ++flaky; std::cout << "note: not reproduced, not reported: " << f.fam << " #" << f.idx << " " << f.key << ": " << f.msg << "\n"; continue; }
        seenKeys.insert(f.fam + f.key);
        ++violations;
        std::string path = cd + "/" + prop + "_" + std::to_string(violations) + ".txt";
        std::ofstream o(path);
        o << "property=" << prop << "\nfamily=" << f.fam << "\nstart=" << f.start << "\nindex=" << f.idx << "\nalone=" << alone << "\ntier=" << tier << "\ncase=" << f.key << "\nwhat=" << f.msg
          << "\nreplay with: cd " << verif << " && python3 run.py " << prop << " --replay " << path << "\n";
        std::cout << "VIOLATION property=" << prop << " replay=" << path << "\n  case: " << f.key.substr(0, 600) << "\n  what: " << f.msg.substr(0, 900) << "\n";
      }
      for (auto &[k, m] : knownHit) std::cout << "KNOWN-FINDING: property=" << prop << " " << k << " :: " << m.substr(0, 300) << "\n";
      u64 tot[8] = {0}, ex[16] = {0}, maxMs = 0;
      for (int j = 0; j < jobs; ++j) {
        tot[0] += slots[j].cases; tot[1] += slots[j].nontrivial; tot[2] += slots[j].states; tot[3] += slots[j].transitions; tot[4] += slots[j].traces;
        for (int k = 0; k < 16; ++k) ex[k] += slots[j].extra[k];
        maxMs = std::max<u64>(maxMs, (u64) slots[j].maxMs);
      }
      double wall = (nowMs() - t0) / 1000.0;
      mkdir((verif + "/evidence").c_str(), 0777);
      std::ofstream e(verif + "/evidence/" + prop + ".json");
      e << "{\n \"property\":\"" << prop << "\",\"tier\":\"" << tier << "\",\"seed\":" << seed << ",\"level\":\"model_checking\",\n \"coverage\":{\n"
        << "  \"states\":" << tot[2] << ",\n  \"transitions\":" << tot[3] << ",\n  \"traces_validated_against_impl\":" << tot[4] << ",\n"
        << "  \"cases\":" << tot[0] << ",\n  \"distinct_nontrivial\":" << tot[1] << ",\n"
        << "  \"longest_case_ms\":" << maxMs << ",\n  \"cases_not_reached\":" << skipped << ",\n  \"exhaustive\":" << (skipped == 0 && !unlisted ? "true" : "false") << ",\n"
        << "  \"states_mean\":\"" << esc(statesMean) << "\",\n  \"transitions_mean\":\"" << esc(transMean) << "\",\n  \"traces_mean\":\"" << esc(tracesMean) << "\",\n"
        << "  \"known_findings_reproduced\":" << knownHit.size() << ",\n  \"unreproduced_failures\":" << flaky << ",\n";
      for (auto &[k, n] : extraNames) e << "  \"" << esc(n) << "\":" << ex[k] << ",\n";
      e << "  \"families\":[";
      for (size_t i = 0; i < famJson.size(); ++i) e << (i ? "," : "") << "\n   " << famJson[i];
      e << "],\n  \"samples\":[";
      for (size_t i = 0; i < samples.size(); ++i) e << (i ? "," : "") << "\n   \"" << esc(samples[i]) << "\"";
      e << "]\n },\n \"assumptions\":[";
      for (size_t i = 0; i < assumptions.size(); ++i) e << (i ? "," : "") << "\"" << esc(assumptions[i]) << "\"";
      e << "],\n \"wall_s\":" << wall << ",\n \"violations\":" << violations << "\n}\n";
      e.close();
      std::cout << prop << " " << tier << ": cases=" << tot[0] << " states=" << tot[2] << " transitions=" << tot[3] << " traces=" << tot[4]
                << " notreached=" << skipped << " known=" << knownHit.size() << " violations=" << violations << " longest=" << maxMs << "ms wall=" << wall << "s\n";
      for (int j = 0; j <= jobs; ++j) unlink((tmp + "/w" + std::to_string(j) + ".err").c_str());
      unlink((tmp + "/confirm.err").c_str()); rmdir(tmp.c_str());
      return violations ? 1 : 0;
    }
    static void setup(Driver &);
  };
}
#define MC_MAIN(ID) int main(int argc, char **argv) { \
    if (!getenv("MC_NOASLR")) { setenv("MC_NOASLR", "1", 1); int p = personality(0xffffffff); \
      if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); } \
    mc::Driver d; d.prop = ID; return d.main(argc, argv); }
