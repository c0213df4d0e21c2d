// utcore's Quaternion assigns to the members a, b, c, d of its base boost::math::quaternion. They
// were protected in the Boost that utcore was written for and are private in 1.83. This wrapper
// includes the system header with those members made protected, and changes nothing else: every
// header it needs is included first, so that they are read as they are.
#ifndef UTCORE_COMPAT_QUATERNION_HPP
#define UTCORE_COMPAT_QUATERNION_HPP
#include <boost/math_fwd.hpp>
#include <boost/math/tools/config.hpp>
#include <boost/math/tools/cxx03_warn.hpp>
#include <boost/math/special_functions/sinc.hpp>
#include <boost/math/special_functions/sinhc.hpp>
#include <complex>
#include <iosfwd>
#include <locale>
#include <sstream>
#include <type_traits>
#define private protected
#include_next <boost/math/quaternion.hpp>
#undef private
#endif
