// Stand-in for DARMA/magistrate (checkpoint), which is not in this sandbox.
//
// vt's full runtime includes <checkpoint/checkpoint.h>.  This header supplies the
// part of magistrate's public interface that vt uses, written from that use: a
// sizer, a packer, an unpacker and a footprinter over operator|, intrusive and
// non-intrusive serialize(), byte-copy types, std containers, smart pointers,
// polymorphic types, re-construction, and in-memory/in-file entry points.
//
// It is deliberately strict where magistrate is lenient: the unpacker knows
// where the buffer it packed ends when the length is known (files), and the
// packed image starts with a checksum-less magic word so that unpacking a buffer
// that was never packed (lost/misdirected payload) is noticed.
#ifndef VERIF_SHIM_CHECKPOINT_H
#define VERIF_SHIM_CHECKPOINT_H

#include <thread>
#include <array>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <queue>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "checkpoint/detector.h"

namespace checkpoint {

using SerialByteType = char;
using SerialSizeType = std::size_t;
using BufferCallback = std::function<SerialByteType*(SerialSizeType)>;

struct SERIALIZE_CONSTRUCT_TAG {};

// ---------------------------------------------------------------- serializers
enum class Mode { Sizing, Packing, Unpacking, Footprinting };

template <Mode M>
struct SerializerBase {
  static constexpr Mode mode = M;
  static constexpr bool isSizing() { return M == Mode::Sizing; }
  static constexpr bool isPacking() { return M == Mode::Packing; }
  static constexpr bool isUnpacking() { return M == Mode::Unpacking; }
  static constexpr bool isFootprinting() { return M == Mode::Footprinting; }

  // only meaningful when footprinting
  template <typename T> void countBytes(T const&) {}
  void addBytes(std::size_t) {}
  template <typename T> void skip(T const&) {}

  bool isVirtualDisabled() const { return virtual_disabled_; }
  void setVirtualDisabled(bool v) { virtual_disabled_ = v; }

protected:
  bool virtual_disabled_ = false;
};

struct Sizer : SerializerBase<Mode::Sizing> {
  void contiguousBytes(void*, std::size_t sz, std::size_t n) { size_ += sz * n; }
  template <typename S, typename T>
  void contiguousTyped(S&, T* p, std::size_t n) { contiguousBytes((void*)p, sizeof(T), n); }
  std::size_t getSize() const { return size_; }
private:
  std::size_t size_ = 0;
};

struct Packer : SerializerBase<Mode::Packing> {
  Packer(char* b, std::size_t n) : start_(b), cur_(b), end_(b + n) {}
  void contiguousBytes(void* p, std::size_t sz, std::size_t n) {
    auto len = sz * n;
    if (len == 0) return;
    if (static_cast<std::size_t>(end_ - cur_) < len) {
      std::fprintf(stderr, "SHIM-SERIALIZE: pack overruns the sized buffer\n");
      std::abort();
    }
    std::memcpy(cur_, p, len);
    cur_ += len;
  }
  template <typename S, typename T>
  void contiguousTyped(S&, T* p, std::size_t n) { contiguousBytes((void*)p, sizeof(T), n); }
  char* getBuffer() const { return start_; }
  std::size_t usedBufferSize() const { return cur_ - start_; }
private:
  char* start_; char* cur_; char* end_;
};

struct Unpacker : SerializerBase<Mode::Unpacking> {
  // n == 0: length unknown
  Unpacker(char const* b, std::size_t n) : start_(b), cur_(b), end_(n ? b + n : nullptr) {}
  void contiguousBytes(void* p, std::size_t sz, std::size_t n) {
    auto len = sz * n;
    if (len == 0) return;
    if (end_ and static_cast<std::size_t>(end_ - cur_) < len) {
      std::fprintf(stderr, "SHIM-SERIALIZE: unpack overruns the packed buffer\n");
      std::abort();
    }
    std::memcpy(p, cur_, len);
    cur_ += len;
  }
  template <typename S, typename T>
  void contiguousTyped(S&, T* p, std::size_t n) { contiguousBytes((void*)p, sizeof(T), n); }
  std::size_t usedBufferSize() const { return cur_ - start_; }
private:
  char const* start_; char const* cur_; char const* end_;
};

struct Footprinter : SerializerBase<Mode::Footprinting> {
  void contiguousBytes(void*, std::size_t sz, std::size_t n) { size_ += sz * n; }
  template <typename S, typename T>
  void contiguousTyped(S&, T* p, std::size_t n) { contiguousBytes((void*)p, sizeof(T), n); }
  template <typename T> void countBytes(T const& t) { size_ += sizeof(t); }
  void addBytes(std::size_t n) { size_ += n; }
  template <typename T> void skip(T const& t) { countBytes(t); }
  std::size_t getMemoryFootprint() const { return size_; }
private:
  std::size_t size_ = 0;
};

template <typename S>
inline constexpr bool is_footprinter_v = std::is_same_v<std::decay_t<S>, Footprinter>;

// --------------------------------------------------------------------- traits
namespace impl {
template <typename T> using byteCopyTrait_t = typename T::isByteCopyable;
template <typename T> using byteCopyTraitBad_t = typename T::isNotByteCopyable;

template <typename T, typename = void>
struct IsByteCopyable
  : std::integral_constant<bool, std::is_arithmetic_v<T> or std::is_enum_v<T>> {};
template <typename T>
struct IsByteCopyable<T, std::void_t<byteCopyTrait_t<T>>> : byteCopyTrait_t<T> {};

template <typename U, typename S>
using intrusive_t = decltype(std::declval<U&>().serialize(std::declval<S&>()));
template <typename U, typename S>
using nonintrusive_t = decltype(serialize(std::declval<S&>(), std::declval<U&>()));

template <typename U> using hasVirtual_t = decltype(std::declval<U&>()._shimDynTypeIdx());
} // impl

template <typename T, typename S = Sizer>
struct SerializableTraits {
  static constexpr bool is_bytecopyable = impl::IsByteCopyable<T>::value;
  static constexpr bool has_serialize_intrusive =
    detection::is_detected<impl::intrusive_t, T, S>::value;
  static constexpr bool has_serialize_function = has_serialize_intrusive;
  static constexpr bool has_serialize_instrusive = has_serialize_intrusive;
  static constexpr bool has_serialize_noninstrusive =
    detection::is_detected<impl::nonintrusive_t, T, S>::value;
  static constexpr bool has_serialize_nonintrusive = has_serialize_noninstrusive;
  static constexpr bool is_serializable =
    is_bytecopyable or has_serialize_intrusive or has_serialize_noninstrusive;
  static constexpr bool is_traversable = is_serializable;
  static constexpr bool is_virtual_serializable =
    detection::is_detected<impl::hasVirtual_t, T>::value;
};

template <typename S, typename T> void dispatchOne(S& s, T& t);

template <
  typename S, typename T,
  typename = std::enable_if_t<std::is_base_of_v<SerializerBase<S::mode>, S>>
>
inline S& operator|(S& s, T& t) {
  dispatchOne(s, const_cast<std::remove_const_t<T>&>(t));
  return s;
}
template <
  typename S, typename T,
  typename = std::enable_if_t<std::is_base_of_v<SerializerBase<S::mode>, S>>,
  typename = std::enable_if_t<not std::is_lvalue_reference_v<T>>
>
inline S& operator|(S& s, T&& t) {
  dispatchOne(s, t);
  return s;
}

template <typename S, typename T>
inline void dispatchArray(S& s, T* p, std::size_t n) {
  if constexpr (impl::IsByteCopyable<T>::value) {
    s.contiguousBytes((void*)p, sizeof(T), n);
  } else {
    for (std::size_t i = 0; i < n; i++) dispatchOne(s, p[i]);
  }
}

// -------------------------------------------------------------- construction
namespace impl {
template <typename T> using tagCons_t = decltype(T(std::declval<SERIALIZE_CONSTRUCT_TAG>()));
template <typename T> using reconMember_t = decltype(T::reconstruct(std::declval<void*>()));
template <typename T> constexpr bool unfriendly_default() { return std::is_default_constructible_v<T>; }
} // impl

template <typename T>
inline T* constructAt(void* mem) {
  if constexpr (std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG>) {
    return new (mem) T(SERIALIZE_CONSTRUCT_TAG{});
  } else if constexpr (detection::is_detected<impl::reconMember_t, T>::value) {
    return &T::reconstruct(mem);
  } else if constexpr (std::is_default_constructible_v<T>) {
    return new (mem) T();
  } else {
    std::fprintf(stderr, "SHIM-SERIALIZE: type cannot be re-constructed\n");
    std::abort();
  }
}
template <typename T>
inline T* allocConstruct() {
  return constructAt<T>(::operator new(sizeof(T), std::align_val_t(alignof(std::max_align_t))));
}
// plain storage suitable for `delete ptr`
template <typename T>
inline T* newConstruct() {
  if constexpr (std::is_constructible_v<T, SERIALIZE_CONSTRUCT_TAG>) {
    return ::new T(SERIALIZE_CONSTRUCT_TAG{});
  } else if constexpr (detection::is_detected<impl::reconMember_t, T>::value) {
    return &T::reconstruct(::operator new(sizeof(T)));
  } else if constexpr (std::is_default_constructible_v<T>) {
    return ::new T();
  } else {
    std::fprintf(stderr, "SHIM-SERIALIZE: type cannot be re-constructed\n");
    std::abort();
  }
}

// ---------------------------------------------------------- polymorphic types
namespace vrt {
using TypeIdx = std::uint64_t;
inline TypeIdx hashName(char const* n) {
  std::uint64_t h = 1469598103934665603ull;
  for (; *n; ++n) { h ^= static_cast<unsigned char>(*n); h *= 1099511628211ull; }
  return h;
}
struct Entry { std::function<void*()> construct; };
inline std::unordered_map<TypeIdx, Entry>& registry() {
  static std::unordered_map<TypeIdx, Entry> r;
  return r;
}
template <typename T>
struct Registrar {
  Registrar() {
    if constexpr (not std::is_abstract_v<T>) {
      registry()[hashName(typeid(T).name())] =
        Entry{[]() -> void* { return static_cast<void*>(newConstruct<T>()); }};
    }
  }
};
template <typename T>
struct AutoReg { static Registrar<T> reg; };
template <typename T> Registrar<T> AutoReg<T>::reg{};

template <typename T> TypeIdx idxOf() {
  (void)&AutoReg<T>::reg;
  return hashName(typeid(T).name());
}

template <typename T, typename S>
void serializeLevel(T& t, S& s) {
  if constexpr (SerializableTraits<T, S>::has_serialize_intrusive) {
    t.serialize(s);
  }
}
template <typename T>
void dynSerialize(T& t, void* s, Mode m) {
  switch (m) {
  case Mode::Sizing: serializeLevel(t, *static_cast<Sizer*>(s)); break;
  case Mode::Packing: serializeLevel(t, *static_cast<Packer*>(s)); break;
  case Mode::Unpacking: serializeLevel(t, *static_cast<Unpacker*>(s)); break;
  case Mode::Footprinting: serializeLevel(t, *static_cast<Footprinter*>(s)); break;
  }
}
} // vrt

#define magistrate_virtual_serialize_root()                                         \
  auto _shimSelf() -> decltype(*this)&;                                             \
  virtual ::checkpoint::vrt::TypeIdx _shimDynTypeIdx() {                            \
    return ::checkpoint::vrt::idxOf<std::remove_reference_t<decltype(*this)>>();    \
  }                                                                                 \
  virtual std::size_t _shimDynSizeof() { return sizeof(*this); }                    \
  virtual void _shimDynSerialize(void* s, ::checkpoint::Mode m) {                   \
    ::checkpoint::vrt::dynSerialize(*this, s, m);                                   \
  }

#define magistrate_virtual_serialize_derived_from(...)                              \
  ::checkpoint::vrt::TypeIdx _shimDynTypeIdx() override {                           \
    return ::checkpoint::vrt::idxOf<std::remove_reference_t<decltype(*this)>>();    \
  }                                                                                 \
  std::size_t _shimDynSizeof() override { return sizeof(*this); }                   \
  void _shimDynSerialize(void* s, ::checkpoint::Mode m) override {                  \
    __VA_ARGS__::_shimDynSerialize(s, m);                                           \
    ::checkpoint::vrt::dynSerialize(*this, s, m);                                   \
  }
#define checkpoint_virtual_serialize_root() magistrate_virtual_serialize_root()
#define checkpoint_virtual_serialize_derived_from(...) \
  magistrate_virtual_serialize_derived_from(__VA_ARGS__)

// ------------------------------------------------------------ std containers
template <typename S, typename CountT>
inline CountT serializeCount(S& s, CountT n) {
  std::uint64_t c = static_cast<std::uint64_t>(n);
  s.contiguousBytes(&c, sizeof(c), 1);
  return static_cast<CountT>(c);
}

template <typename S>
void serialize(S& s, std::string& str) {
  if constexpr (is_footprinter_v<S>) {
    s.countBytes(str);
    s.addBytes(str.capacity());
  } else {
    auto n = serializeCount(s, str.size());
    if (s.isUnpacking()) str.resize(n);
    s.contiguousBytes(str.data(), 1, n);
  }
}

template <typename S, typename T, typename A>
void serialize(S& s, std::vector<T, A>& v) {
  if constexpr (is_footprinter_v<S>) {
    s.countBytes(v);
    if constexpr (std::is_same_v<T, bool>) {
      s.addBytes(v.capacity() / 8);
    } else {
      for (auto&& e : v) s | e;
      s.addBytes(sizeof(T) * (v.capacity() - v.size()));
    }
  } else {
    auto n = serializeCount(s, v.size());
    if constexpr (std::is_same_v<T, bool>) {
      if (s.isUnpacking()) v.resize(n);
      for (std::size_t i = 0; i < n; i++) {
        bool b = v[i];
        s | b;
        if (s.isUnpacking()) v[i] = b;
      }
    } else {
      if constexpr (S::mode == Mode::Unpacking) {
        v.clear();
        if constexpr (std::is_default_constructible_v<T>) {
          v.resize(n);
          dispatchArray(s, v.data(), n);
        } else {
          v.reserve(n);
          for (std::size_t i = 0; i < n; i++) {
            alignas(T) unsigned char mem[sizeof(T)];
            T* t = constructAt<T>(mem);
            s | *t;
            v.push_back(std::move(*t));
            t->~T();
          }
        }
      } else {
        dispatchArray(s, v.data(), n);
      }
    }
  }
}

namespace impl {
template <typename S, typename C>
void serializeSeq(S& s, C& c) {
  using T = typename C::value_type;
  if constexpr (is_footprinter_v<S>) {
    s.countBytes(c);
    for (auto&& e : c) s | const_cast<T&>(e);
  } else {
    auto n = serializeCount(s, c.size());
    if (s.isUnpacking()) {
      c.clear();
      for (std::size_t i = 0; i < n; i++) {
        T t{};
        s | t;
        c.insert(c.end(), std::move(t));
      }
    } else {
      for (auto&& e : c) s | const_cast<T&>(e);
    }
  }
}
template <typename S, typename C>
void serializeMap(S& s, C& c) {
  using K = typename C::key_type;
  using V = typename C::mapped_type;
  if constexpr (is_footprinter_v<S>) {
    s.countBytes(c);
    for (auto&& e : c) { s | const_cast<K&>(e.first); s | e.second; }
  } else {
    auto n = serializeCount(s, c.size());
    if constexpr (S::mode == Mode::Unpacking) {
      c.clear();
      for (std::size_t i = 0; i < n; i++) {
        K k{};
        s | k;
        V v{};
        s | v;
        c.emplace(std::move(k), std::move(v));
      }
    } else {
      for (auto&& e : c) { s | const_cast<K&>(e.first); s | e.second; }
    }
  }
}
template <typename Adapter>
struct Inner : Adapter { static auto& get(Adapter& a) { return a.*(&Inner::c); } };
} // impl

template <typename S, typename T, typename A>
void serialize(S& s, std::list<T, A>& c) { impl::serializeSeq(s, c); }
template <typename S, typename T, typename A>
void serialize(S& s, std::deque<T, A>& c) { impl::serializeSeq(s, c); }
template <typename S, typename T, typename C, typename A>
void serialize(S& s, std::set<T, C, A>& c) { impl::serializeSeq(s, c); }
template <typename S, typename T, typename C, typename A>
void serialize(S& s, std::multiset<T, C, A>& c) { impl::serializeSeq(s, c); }
template <typename S, typename T, typename H, typename E, typename A>
void serialize(S& s, std::unordered_set<T, H, E, A>& c) { impl::serializeSeq(s, c); }
template <typename S, typename T, typename H, typename E, typename A>
void serialize(S& s, std::unordered_multiset<T, H, E, A>& c) { impl::serializeSeq(s, c); }
template <typename S, typename K, typename V, typename C, typename A>
void serialize(S& s, std::map<K, V, C, A>& c) { impl::serializeMap(s, c); }
template <typename S, typename K, typename V, typename C, typename A>
void serialize(S& s, std::multimap<K, V, C, A>& c) { impl::serializeMap(s, c); }
template <typename S, typename K, typename V, typename H, typename E, typename A>
void serialize(S& s, std::unordered_map<K, V, H, E, A>& c) { impl::serializeMap(s, c); }
template <typename S, typename K, typename V, typename H, typename E, typename A>
void serialize(S& s, std::unordered_multimap<K, V, H, E, A>& c) { impl::serializeMap(s, c); }
template <typename S, typename T, typename C>
void serialize(S& s, std::queue<T, C>& q) { s | impl::Inner<std::queue<T, C>>::get(q); }
template <typename S, typename T, typename C>
void serialize(S& s, std::stack<T, C>& q) { s | impl::Inner<std::stack<T, C>>::get(q); }
template <typename S, typename T, typename C, typename L>
void serialize(S& s, std::priority_queue<T, C, L>& q) {
  s | impl::Inner<std::priority_queue<T, C, L>>::get(q);
}

template <typename S, typename T, std::size_t N>
void serialize(S& s, std::array<T, N>& a) { dispatchArray(s, a.data(), N); }
template <typename S, typename A, typename B>
void serialize(S& s, std::pair<A, B>& p) { s | p.first; s | p.second; }
template <typename S, typename... Ts>
void serialize(S& s, std::tuple<Ts...>& t) {
  std::apply([&](auto&... e) { (void)std::initializer_list<int>{((s | e), 0)...}; }, t);
}
template <typename S, typename T>
void serialize(S& s, std::optional<T>& o) {
  bool has = o.has_value();
  s | has;
  if (s.isUnpacking()) { if (has) o.emplace(); else o.reset(); }
  if (has) s | *o;
}
template <typename S, typename T>
void serialize(S& s, std::atomic<T>& a) {
  T t = a.load();
  s | t;
  if (s.isUnpacking()) a.store(t);
}
template <typename S, typename R, typename P>
void serialize(S& s, std::chrono::duration<R, P>& d) {
  R c = d.count();
  s | c;
  if (s.isUnpacking()) d = std::chrono::duration<R, P>(c);
}
namespace impl {
template <typename S, std::size_t I, typename... Ts>
void unpackVariant(S& s, std::variant<Ts...>& v, std::size_t idx) {
  if constexpr (I < sizeof...(Ts)) {
    if (idx == I) {
      v.template emplace<I>();
      s | std::get<I>(v);
    } else {
      unpackVariant<S, I + 1, Ts...>(s, v, idx);
    }
  }
}
}
template <typename S, typename... Ts>
void serialize(S& s, std::variant<Ts...>& v) {
  auto idx = serializeCount(s, v.index());
  if constexpr (S::mode == Mode::Unpacking) {
    impl::unpackVariant<S, 0, Ts...>(s, v, idx);
  } else {
    std::visit([&](auto& e) { s | e; }, v);
  }
}
template <typename S, typename R, typename... Args>
void serialize(S& s, std::function<R(Args...)>& f) {
  if constexpr (is_footprinter_v<S>) s.countBytes(f);
  else static_assert(is_footprinter_v<S>, "std::function cannot be serialized");
}

namespace impl {
template <typename S, typename T>
void serializeOwned(S& s, T*& ptr) {
  // ptr: in (pack/size) the object, out (unpack) a fresh object
  bool is_null = ptr == nullptr;
  s | is_null;
  if (is_null) { ptr = nullptr; return; }
  if constexpr (SerializableTraits<T>::is_virtual_serializable) {
    vrt::TypeIdx idx = 0;
    if constexpr (S::mode != Mode::Unpacking) idx = ptr->_shimDynTypeIdx();
    s | idx;
    if constexpr (S::mode == Mode::Unpacking) {
      auto it = vrt::registry().find(idx);
      if (it == vrt::registry().end()) {
        std::fprintf(stderr, "SHIM-SERIALIZE: unknown polymorphic type\n");
        std::abort();
      }
      ptr = static_cast<T*>(it->second.construct());
    }
    ptr->_shimDynSerialize(static_cast<void*>(&s), S::mode);
  } else {
    if constexpr (S::mode == Mode::Unpacking) ptr = newConstruct<T>();
    s | *ptr;
  }
}
}

template <typename S, typename T, typename D>
void serialize(S& s, std::unique_ptr<T, D>& p) {
  if constexpr (is_footprinter_v<S>) {
    s.countBytes(p);
    if (p) {
      if constexpr (SerializableTraits<T>::is_virtual_serializable) {
        s.addBytes(p->_shimDynSizeof());
        p->_shimDynSerialize(static_cast<void*>(&s), S::mode);
      } else if constexpr (not std::is_abstract_v<T>) {
        s | *p;
      }
    }
  } else {
    T* raw = p.get();
    impl::serializeOwned(s, raw);
    if (s.isUnpacking()) p.reset(raw);
  }
}
template <typename S, typename T>
void serialize(S& s, std::shared_ptr<T>& p) {
  if constexpr (is_footprinter_v<S>) {
    s.countBytes(p);
    if (p) {
      if constexpr (not std::is_abstract_v<T> and not std::is_void_v<T>) s | *p;
    }
  } else {
    T* raw = p.get();
    impl::serializeOwned(s, raw);
    if (s.isUnpacking()) p.reset(raw);
  }
}

// ------------------------------------------------------------------- dispatch
template <typename S, typename T>
inline void dispatchOne(S& s, T& t) {
  if constexpr (is_footprinter_v<S>) {
    if constexpr (std::is_pointer_v<T>) {
      s.countBytes(t);
    } else if constexpr (std::is_array_v<T>) {
      for (auto& e : t) s | e;
    } else if constexpr (std::is_empty_v<T>) {
      s.countBytes(t);
    } else if constexpr (SerializableTraits<T, S>::has_serialize_intrusive) {
      t.serialize(s);
    } else if constexpr (SerializableTraits<T, S>::has_serialize_noninstrusive) {
      serialize(s, t);
    } else {
      s.countBytes(t);
    }
  } else if constexpr (std::is_array_v<T>) {
    dispatchArray(s, &t[0], std::extent_v<T>);
  } else if constexpr (impl::IsByteCopyable<T>::value) {
    s.contiguousBytes((void*)&t, sizeof(T), 1);
  } else if constexpr (SerializableTraits<T, S>::has_serialize_intrusive) {
    t.serialize(s);
  } else if constexpr (SerializableTraits<T, S>::has_serialize_noninstrusive) {
    serialize(s, t);
  } else {
    static_assert(
      SerializableTraits<T, S>::has_serialize_intrusive, "type is not serializable"
    );
  }
}

template <typename S, typename T>
void reconstructPointedToObjectIfNeeded(S& s, T*& ptr) {
  if constexpr (S::mode == Mode::Unpacking) {
    if constexpr (SerializableTraits<T>::is_virtual_serializable) {
      vrt::TypeIdx idx = 0;
      s | idx;
      ptr = static_cast<T*>(vrt::registry().at(idx).construct());
    } else {
      ptr = newConstruct<T>();
    }
  } else if constexpr (SerializableTraits<T>::is_virtual_serializable) {
    vrt::TypeIdx idx = ptr->_shimDynTypeIdx();
    s | idx;
  }
}

// ---------------------------------------------------------------- entry points
inline constexpr std::uint64_t buffer_magic = 0x5ec0de5ec0de1234ull;

struct SerializedInfo {
  virtual ~SerializedInfo() = default;
  virtual char* getBuffer() const = 0;
  virtual std::size_t getSize() const = 0;
};
struct SerializedData : SerializedInfo {
  SerializedData(char* b, std::size_t n, bool own) : buf_(b), size_(n), own_(own) {}
  SerializedData(SerializedData const&) = delete;
  ~SerializedData() { if (own_) std::free(buf_); }
  char* getBuffer() const override { return buf_; }
  std::size_t getSize() const override { return size_; }
private:
  char* buf_; std::size_t size_; bool own_;
};
using SerializedReturnType = std::unique_ptr<SerializedInfo>;

template <typename T>
std::size_t getSize(T& target) {
  Sizer s;
  auto m = buffer_magic;
  s | m;
  s | target;
  return s.getSize();
}

namespace impl {
template <typename T>
void packInto(T& target, char* buf, std::size_t n) {
  Packer p(buf, n);
  auto m = buffer_magic;
  p | m;
  p | target;
  if (p.usedBufferSize() != n) {
    std::fprintf(stderr, "SHIM-SERIALIZE: pack used a different size than sizing\n");
    std::abort();
  }
}
template <typename T>
void unpackFrom(T& target, char const* buf, std::size_t n) {
  Unpacker u(buf, n);
  std::uint64_t m = 0;
  u | m;
  if (m != buffer_magic) {
    std::fprintf(stderr, "SHIM-SERIALIZE: unpacking a buffer that was not packed\n");
    std::abort();
  }
  u | target;
}
}

template <typename T>
SerializedReturnType serialize(T& target, BufferCallback fn = nullptr) {
  auto const n = getSize(target);
  bool own = not fn;
  char* buf = own ? static_cast<char*>(std::malloc(n)) : fn(n);
  impl::packInto(target, buf, n);
  return SerializedReturnType(new SerializedData(buf, n, own));
}
template <typename T>
void deserializeInPlace(char* buf, T* t) { impl::unpackFrom(*t, buf, 0); }
template <typename T>
std::unique_ptr<T> deserialize(char* buf) {
  std::unique_ptr<T> t(newConstruct<T>());
  impl::unpackFrom(*t, buf, 0);
  return t;
}
template <typename T>
std::unique_ptr<T> deserialize(SerializedReturnType&& in) {
  std::unique_ptr<T> t(newConstruct<T>());
  impl::unpackFrom(*t, in->getBuffer(), in->getSize());
  return t;
}
template <typename T>
std::size_t getMemoryFootprint(T& target, std::size_t offset = 0) {
  Footprinter f;
  if constexpr (SerializableTraits<std::remove_const_t<T>>::is_virtual_serializable) {
    auto& t = const_cast<std::remove_const_t<T>&>(target);
    f.addBytes(t._shimDynSizeof());
    t._shimDynSerialize(&f, Mode::Footprinting);
  } else {
    f | target;
  }
  return f.getMemoryFootprint() + offset;
}
template <typename T>
void serializeToFile(T& target, std::string const& file) {
  auto const n = getSize(target);
  std::vector<char> buf(n);
  impl::packInto(target, buf.data(), n);
  std::ofstream of(file, std::ios::binary | std::ios::trunc);
  of.write(buf.data(), n);
  of.close();
  if (not of) throw std::runtime_error("serializeToFile failed: " + file);
}
namespace impl {
inline std::vector<char> slurp(std::string const& file) {
  std::ifstream f(file, std::ios::binary);
  if (not f) throw std::runtime_error("deserializeFromFile failed: " + file);
  return std::vector<char>((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
}
template <typename T>
std::unique_ptr<T> deserializeFromFile(std::string const& file) {
  auto buf = impl::slurp(file);
  std::unique_ptr<T> t(newConstruct<T>());
  impl::unpackFrom(*t, buf.data(), buf.size());
  return t;
}
template <typename T>
void deserializeInPlaceFromFile(std::string const& file, T* t) {
  auto buf = impl::slurp(file);
  impl::unpackFrom(*t, buf.data(), buf.size());
}

} // namespace checkpoint

namespace magistrate = checkpoint;

#endif
