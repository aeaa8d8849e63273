// Conversion between the reference representation and the library's data structures.
#pragma once
#include <cmath>
#include "ref.hh"
#include "timed_automaton.hh"
#include "timed_word.hh"

namespace conv {
  inline learnta::Constraint constraint(const ref::Guard &g) {
    learnta::ConstraintMaker m(g.x);
    switch (g.op) { case ref::LT: return m < g.c; case ref::LE: return m <= g.c; case ref::GE: return m >= g.c; default: return m > g.c; }
  }
  inline ref::Guard guard(const learnta::Constraint &c) {
    int op = 0;
    switch (c.odr) {
      case learnta::Constraint::Order::lt: op = ref::LT; break;
      case learnta::Constraint::Order::le: op = ref::LE; break;
      case learnta::Constraint::Order::ge: op = ref::GE; break;
      case learnta::Constraint::Order::gt: op = ref::GT; break;
    }
    return {c.x, op, c.c};
  }
  inline learnta::TATransition::Resets resets(const std::vector<ref::Reset> &rs, int scale = 1) {
    learnta::TATransition::Resets r;
    for (auto &s : rs) {
      if (s.isClock) r.emplace_back(learnta::ClockVariables(s.x), learnta::ClockVariables(s.v));
      else r.emplace_back(learnta::ClockVariables(s.x), double(s.v) / scale);
    }
    return r;
  }
  // scale: the automaton is given with all constants multiplied by `scale` (guards must be divisible)
  // rev: the transitions are added in the descending order of the letters (the container's iteration order depends on it)
  inline learnta::TimedAutomaton toLib(const ref::TA &a, int scale = 1, bool rev = false) {
    learnta::TimedAutomaton t;
    for (auto &l : a.locs) t.states.push_back(std::make_shared<learnta::TAState>(l.acc));
    std::vector<int> mx(a.nclk, 0);
    for (size_t i = 0; i < a.locs.size(); ++i) {
      std::vector<std::pair<char, std::vector<ref::Edge>>> out(a.locs[i].out.begin(), a.locs[i].out.end());
      if (rev) std::reverse(out.begin(), out.end());
      for (auto &[c, es] : out) {
        auto &v = t.states[i]->next[c];
        for (auto &e : es) {
          std::vector<learnta::Constraint> g;
          for (auto k : e.guard) { k.c /= scale; g.push_back(constraint(k)); mx[k.x] = std::max(mx[k.x], k.c); }
          v.emplace_back(t.states[e.target].get(), resets(e.resets, scale), g);
        }
      }
    }
    if (a.init >= 0) t.initialStates = {t.states[a.init]};
    t.maxConstraints = mx;
    return t;
  }
  // scale: every constant of the result is multiplied by `scale` (must make reset constants integral);
  // err is set if that is impossible or the structure is malformed (dangling target, clock out of range)
  inline ref::TA fromLib(const learnta::TimedAutomaton &t, int scale, std::string &err) {
    ref::TA a;
    a.nclk = (int) t.clockSize();
    std::map<const learnta::TAState *, int> id;
    for (size_t i = 0; i < t.states.size(); ++i) id[t.states[i].get()] = (int) i;
    if (t.initialStates.size() > 1) err = "more than one initial state";
    a.init = -1;
    if (!t.initialStates.empty()) {
      if (!id.count(t.initialStates[0].get())) err = "initial state is not a state";
      else a.init = id[t.initialStates[0].get()];
    }
    a.locs.resize(t.states.size());
    for (size_t i = 0; i < t.states.size(); ++i) {
      a.locs[i].acc = t.states[i]->isMatch;
      for (auto &[c, ts] : t.states[i]->next)
        for (auto &e : ts) {
          ref::Edge r;
          if (!id.count(e.target)) { err = "dangling transition target"; continue; }
          r.target = id[e.target];
          for (auto &g : e.guard) {
            auto k = guard(g);
            if (k.x >= a.nclk) { err = "guard on a clock that does not exist"; continue; }
            k.c *= scale; r.guard.push_back(k);
          }
          for (auto &[x, v] : e.resetVars) {
            if (x >= a.nclk) { err = "assignment to a clock that does not exist"; continue; }
            if (v.index() == 1) {
              auto y = std::get<learnta::ClockVariables>(v);
              if (y >= a.nclk) { err = "assignment from a clock that does not exist"; continue; }
              r.resets.push_back({x, true, y});
            } else {
              double d = std::get<double>(v) * scale;
              if (d != std::floor(d) || d < 0 || d > 100) { err = "assigned constant " + std::to_string(std::get<double>(v)) + " not representable"; continue; }
              r.resets.push_back({x, false, (int) d});
            }
          }
          a.locs[i].out[c].push_back(r);
        }
    }
    return a;
  }
  inline learnta::TimedWord word(const ref::Word &w, int Q) {
    std::vector<double> d;
    for (auto x : w.dur) d.push_back(double(x) / Q);
    return learnta::TimedWord{w.w, d};
  }
  inline std::string show(const learnta::TimedAutomaton &t) { std::ostringstream s; s << t; return s.str(); }
  inline std::string show(const learnta::TimedWord &t) { std::ostringstream s; s << t; return s.str(); }
}
