// Independent model of the reference point weights used by KNN positioning and by level detection.
#pragma once
#include "mapgen.h"
#include <navigine/navigation-core/navigation_input.h>
namespace mg {
inline std::map<std::string, double> weights(const LevelSpec& l, const RadioMeasurementsData& valid, bool diff) {
  std::map<std::string, double> w, out;
  double sum = 0;
  for (auto& m : valid) { double tp = m.power < 0.00001 ? -10.0 : m.power; double d = std::pow(10.0, (tp - m.rssi) / 30.0); w[m.id.value] = std::pow(d, -1.8); sum += w[m.id.value]; }
  for (auto& kv : w) kv.second /= sum;
  for (auto& r : l.rps) {
    std::vector<std::array<double, 3>> v;   // weight, measured, map
    for (auto& m : valid) { auto it = r.fp.find(m.id.value); if (it != r.fp.end()) v.push_back({w[m.id.value], m.rssi, it->second.mean}); }
    if (v.size() < 3) continue;
    double pen = 0, norm = 0;
    for (size_t i = 0; i < v.size(); i++) {
      if (!diff) { pen += std::max(std::fabs(std::fabs(v[i][1]) - std::fabs(v[i][2])) * v[i][0], 1e-6); norm += v[i][0]; }
      else for (size_t j = 0; j < i; j++) { double aw = v[i][0] * v[j][0]; pen += std::max(std::fabs((v[i][1] - v[j][1]) - (v[i][2] - v[j][2])) * aw, 1e-6); norm += aw; }
    }
    if (norm > 1e-8) pen /= norm;
    if (std::fabs(norm - 1e-8) < 1e-12) throw pbt::Discard();
    out[r.id] = v.size() / std::sqrt(pen);
  }
  return out;
}
}  // namespace mg
