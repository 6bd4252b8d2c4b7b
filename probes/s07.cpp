// examples the interval analysis must judge right on every run: names with "bad" leave their table
#include <algorithm>
#include <cmath>
namespace spec_p07 {
extern const double row_[5];
const double row_[5] = {1, 2, 3, 4, 5};

double good_clamp(int i) { return row_[std::min(std::max(i, 0), 4)]; }
double bad_clamp(int i) { return row_[std::min(std::max(i, 0), 5)]; }
double good_test(double x)
{
    if (!(x >= 0.0) || x > 4.5) return 0.0;
    return row_[static_cast<int>(std::floor(x))];
}
double bad_nan(double x)
{
    if (x < 0.0 || x > 4.5) return 0.0;
    return row_[static_cast<int>(std::floor(x))];
}
double good_sum()
{
    double s = 0.0;
    for (int i = 0; i < 5; i++) s += row_[i];
    return s;
}
double bad_sum()
{
    double s = 0.0;
    for (int i = 0; i <= 5; i++) s += row_[i];
    return s;
}
double good_down()
{
    double s = 0.0;
    for (int i = 4; i > 0; i--) s += row_[i] - row_[i - 1];
    return s;
}
double bad_down()
{
    double s = 0.0;
    for (int i = 4; i >= 0; i--) s += row_[i] - row_[i - 1];
    return s;
}
} // namespace spec_p07
