// Analysis translation unit: pulls in every header of the library and names the
// template instances that a client would use, so that each function body exists
// in resolved form. Nothing here is ever executed.
#include "all_headers.inc"
#include <string>
namespace verif_driver {
using namespace cmmcore;
inline void use_templates() {
    // k-d tree
    std::vector<vec3> pts; KDTree3D tree; 
    tree.build(pts);
    // memory view
    // scalar minimisation
    OptimizeResult<double> r; std::function<double(double)> f = [](double x) { return x; };
    minimize_scalar_bounded<double>(f, std::pair<double, double>(0., 1.), r);
    // newton
    std::function<double(const Vector<2> &)> f2 = [](const Vector<2> &) { return 0.; };
    std::function<double(const Vector<3> &)> f3 = [](const Vector<3> &) { return 0.; };
    std::function<double(const Vector<4> &)> f4 = [](const Vector<4> &) { return 0.; };
    newtonsMethod<2>(f2, Vector<2>{}); newtonsMethod<3>(f3, Vector<3>{}); newtonsMethod<4>(f4, Vector<4>{});
    // step strings
    vectorToString(std::vector<double>{}); vectorToString(std::vector<int>{});
    std::vector<std::vector<double>> m; std::vector<double> c; vectorColumn(m, 0, c);
}
}
template class cmmcore::MemoryView<double>;
template class cmmcore::KDTree<cmmcore::vec3, cmmcore::PointComparator3D>;
