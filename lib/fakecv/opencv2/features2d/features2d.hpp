#ifndef VERIF_FAKE_CV_FEATURES2D
#define VERIF_FAKE_CV_FEATURES2D
#include "../core/core.hpp"
namespace cv {
struct KeyPoint {
  Point2f pt;
  float size = 0, angle = -1, response = 0;
  int octave = 0, class_id = -1;
  KeyPoint() {}
  KeyPoint(Point2f p, float s, float a = -1, float r = 0, int o = 0, int c = -1) : pt(p), size(s), angle(a), response(r), octave(o), class_id(c) {}
};
}  // namespace cv
#endif
