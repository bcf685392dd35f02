// ade::util range helpers (eager, value semantics; enough for deepworks).
#pragma once
#include <ade/graph.hpp>

namespace ade { namespace util {

template <typename Ref>
struct Indexed {
    std::size_t idx;
    Ref         val;
};

template <typename R> auto index(const Indexed<R>& i) -> std::size_t { return i.idx; }
template <typename R> R value(const Indexed<R>& i) { return static_cast<R>(i.val); }

namespace detail {
template <typename It>
struct IndexedIt {
    It it; std::size_t i;
    using Ref = typename std::iterator_traits<It>::reference;
    Indexed<Ref> operator*() const { return Indexed<Ref>{i, *it}; }
    IndexedIt& operator++() { ++it; ++i; return *this; }
    bool operator!=(const IndexedIt& o) const { return it != o.it; }
    bool operator==(const IndexedIt& o) const { return it == o.it; }
};
// Keeps rvalue ranges alive, references lvalue ranges.
template <typename R>
struct IndexedRange {
    R range;
    auto begin() { using std::begin; return IndexedIt<decltype(begin(range))>{begin(range), 0}; }
    auto end()   { using std::end; using std::begin; return IndexedIt<decltype(begin(range))>{end(range), 0}; }
};
}

template <typename R>
detail::IndexedRange<R> indexed(R&& r) { return detail::IndexedRange<R>{std::forward<R>(r)}; }

// Copies the selected elements (handles / values) in order.
template <typename R, typename P>
auto filter(const R& r, P p) {
    using T = typename std::decay<decltype(*std::begin(r))>::type;
    std::vector<T> out;
    for (auto&& e : r) if (p(e)) out.push_back(e);
    return out;
}

template <typename R, typename Out, typename F>
Out transform(R&& r, Out out, F f) {
    using std::begin; using std::end;
    return std::transform(begin(r), end(r), out, f);
}
template <typename R> R&& toRange(R&& r) { return std::forward<R>(r); }
template <typename R, typename F> F for_each(R&& r, F f) { return std::for_each(std::begin(r), std::end(r), f); }
template <typename R, typename P> bool any_of(R&& r, P p) { return std::any_of(std::begin(r), std::end(r), p); }
template <typename R, typename P> bool all_of(R&& r, P p) { return std::all_of(std::begin(r), std::end(r), p); }
template <typename R, typename V> auto find(R&& r, const V& v) { return std::find(std::begin(r), std::end(r), v); }
template <typename R, typename P> auto find_if(R&& r, P p) { return std::find_if(std::begin(r), std::end(r), p); }
template <typename R, typename V> bool contains(const R& r, const V& v) { return std::find(std::begin(r), std::end(r), v) != std::end(r); }
template <typename R, typename Out> Out copy(R&& r, Out o) { return std::copy(std::begin(r), std::end(r), o); }

} }
