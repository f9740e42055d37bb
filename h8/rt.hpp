// Compiled ahead of the generated definitions (C25).
#pragma once
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/policies/static_rtti.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>

#include <memory>
#include <string>
#include <type_traits>

namespace bom = boost::openmethod;
namespace pol = boost::openmethod::policies;

namespace regs {
using def = bom::default_registry;
using ind = bom::indirect_registry;
struct chk : def::with<pol::runtime_checks> {};
struct map : def::with<pol::vptr_map<>>::without<pol::type_hash> {};
struct thr : def::with<pol::throw_error_handler> {};
struct srt : def::with<pol::static_rtti> {};
struct ind_chk : ind::with<pol::runtime_checks> {};
} // namespace regs

template<class T, class R>
using vptr = bom::virtual_ptr<T, R>;
template<class T, class R>
using svptr = bom::shared_virtual_ptr<T, R>;
template<class T, class R>
using uvptr = bom::unique_virtual_ptr<T, R>;
template<class T, class R>
using ivptr = bom::boost_intrusive_virtual_ptr<T, R>;
template<class T>
using intr = boost::intrusive_ptr<T>;
template<class T>
using shared = std::shared_ptr<T>;
template<class T>
using unique = std::unique_ptr<T>;
template<class T>
using virt = bom::virtual_<T>;

// A value of any type.
template<class T>
T get();
