// Stand-in for the iir1 library (not available offline): Butterworth low and high pass filters.
#pragma once
#include <cmath>
#include <vector>
namespace Iir::Butterworth {
template <int ORDER> class Filter {
public:
  double filter(double x) {
    for (auto &s : sections) {
      const double y = s.b0 * x + s.z1;
      s.z1 = s.b1 * x - s.a1 * y + s.z2;
      s.z2 = s.b2 * x - s.a2 * y;
      x = y;
    }
    return x;
  }
  void reset() {
    for (auto &s : sections) {
      s.z1 = s.z2 = 0;
    }
  }

protected:
  void make(double fs, double f, bool high) {
    sections.clear();
    const double w = std::tan(M_PI * f / fs);
    for (int k = 0; k < ORDER / 2; k++) {
      const double q = 2 * std::sin(M_PI * (2 * k + 1) / (2 * ORDER));
      const double n = 1 / (1 + q * w + w * w);
      Section s;
      s.b0 = high ? n : w * w * n;
      s.b1 = high ? -2 * n : 2 * w * w * n;
      s.b2 = s.b0;
      s.a1 = 2 * (w * w - 1) * n;
      s.a2 = (1 - q * w + w * w) * n;
      sections.push_back(s);
    }
  }
  struct Section {
    double b0, b1, b2, a1, a2, z1 = 0, z2 = 0;
  };
  std::vector<Section> sections;
};
template <int ORDER> class LowPass : public Filter<ORDER> {
public:
  void setup(double fs, double f) { this->make(fs, f, false); }
};
template <int ORDER> class HighPass : public Filter<ORDER> {
public:
  void setup(double fs, double f) { this->make(fs, f, true); }
};
} // namespace Iir::Butterworth
