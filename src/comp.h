// Exploration of stand-alone components: rows of [rst, inputs, outputs].
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <atomic>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
struct CTrace { std::string design, label, what; std::vector<std::vector<u64>> rows; std::string key; };
struct CShared {
  std::mutex mu;
  std::vector<CTrace> viol, samples;
  std::map<std::string, CTrace> findings;   // named deviations, see Unit::excuse
  u64 states = 0, transitions = 0;
  bool exhaustive = true;
  std::map<std::string, u64> counters;
};
static void crun(std::vector<std::function<void()>> jobs) {
  std::atomic<size_t> next{0};
  std::vector<std::thread> t;
  for (int i = 0; i < 8; i++) t.emplace_back([&] { for (size_t k; (k = next++) < jobs.size();) jobs[k](); });
  for (auto& x : t) x.join();
}
static std::string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static void ctrace(FILE* f, const CTrace& t) {
  fprintf(f, "{\"design\":\"%s\",\"label\":\"%s\",\"notes\":[\"%s\"],\"cycles\":[", t.design.c_str(), t.label.c_str(), t.what.c_str());
  for (size_t i = 0; i < t.rows.size(); i++) {
    fprintf(f, "%s[", i ? "," : "");
    for (size_t k = 0; k < t.rows[i].size(); k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)t.rows[i][k]);
    fprintf(f, "]");
  }
  fprintf(f, "]}");
}
static void cfinish(CShared& s, const char* out) {
  FILE* f = fopen(out, "w");
  fprintf(f, "{\"states\":%llu,\"transitions\":%llu,\"exhaustive\":%s,\"counters\":{", (unsigned long long)s.states, (unsigned long long)s.transitions, s.exhaustive ? "true" : "false");
  bool c = false;
  for (auto& k : s.counters) fprintf(f, "%s\"%s\":%llu", c ? "," : "", k.first.c_str(), (unsigned long long)k.second), c = true;
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < s.samples.size(); i++) { if (i) fprintf(f, ","); ctrace(f, s.samples[i]); }
  fprintf(f, "],\"violations\":[");
  for (auto& k : s.findings) s.viol.push_back(k.second);
  for (size_t i = 0; i < s.viol.size(); i++) {
    fprintf(f, "%s{\"kind\":\"component\",\"what\":\"%s\",\"label\":\"%s\",", i ? "," : "", s.viol[i].what.c_str(), s.viol[i].label.c_str());
    if (s.viol[i].key.size()) fprintf(f, "\"key\":\"%s\",", s.viol[i].key.c_str());
    fprintf(f, "\"trace\":");
    ctrace(f, s.viol[i]);
    fprintf(f, "}");
  }
  fprintf(f, "]}");
  fclose(f);
}
