// The installed Boost (1.83) predates <boost/core/invoke_swap.hpp>; this is its behaviour (swap found by ADL, else std::swap).
#ifndef BOOST_CORE_INVOKE_SWAP_HPP
#define BOOST_CORE_INVOKE_SWAP_HPP
#include <utility>
namespace boost_core_invoke_swap_shim { using std::swap; template <class T> void call(T& a, T& b) { swap(a, b); } }
namespace boost { namespace core { template <class T> void invoke_swap(T& a, T& b) { ::boost_core_invoke_swap_shim::call(a, b); } } }
#endif
