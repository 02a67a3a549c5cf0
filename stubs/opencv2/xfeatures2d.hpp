// Stand-in for the OpenCV contrib header this sandbox lacks (see DESIGN.md).  The only thing the repository uses of it
// is the factory of the BRIEF descriptor extractor; here it hands out an ORB instance, which has the same
// cv::Feature2D::compute contract (bad points removed, one binary row per remaining point).
#ifndef VERIF_STUB_XFEATURES2D_HPP
#define VERIF_STUB_XFEATURES2D_HPP
#include <opencv2/features2d.hpp>
namespace cv::xfeatures2d {
struct BriefDescriptorExtractor
{
    static cv::Ptr<cv::Feature2D> create(int = 32, bool = false) { return cv::ORB::create(); }
};
} // namespace cv::xfeatures2d
#endif
