#pragma once
#include <ade/graph.hpp>

namespace ade {

template <typename... Types>
class TypedMetadata {
public:
    explicit TypedMetadata(Metadata& m) : m_meta(&m) {}
    template <typename T> void set(T&& v) {
        static_assert((std::is_same<typename std::decay<T>::type, Types>::value || ...), "type not in typed metadata");
        m_meta->set(std::forward<T>(v));
    }
    template <typename T> T& get() const {
        static_assert((std::is_same<T, Types>::value || ...), "type not in typed metadata");
        return m_meta->template get<T>();
    }
    template <typename T> T get(T def) const { return contains<T>() ? get<T>() : def; }
    template <typename T> bool contains() const { return m_meta->template contains<T>(); }
    template <typename T> void erase() { m_meta->template erase<T>(); }
private:
    Metadata* m_meta;
};

template <typename... Types>
class TypedGraph {
public:
    using MetadataT = TypedMetadata<Types...>;
    TypedGraph(Graph& g) : m_g(&g) {}
    NodeHandle createNode() { return m_g->createNode(); }
    EdgeHandle link(const NodeHandle& s, const NodeHandle& d) { return m_g->link(s, d); }
    std::vector<NodeHandle> nodes() const { return m_g->nodes(); }
    MetadataT metadata() const { return MetadataT(m_g->metadata()); }
    MetadataT metadata(const NodeHandle& n) const { return MetadataT(m_g->metadata(n)); }
    MetadataT metadata(const EdgeHandle& e) const { return MetadataT(m_g->metadata(e)); }
private:
    Graph* m_g;
};

template <typename... Types> using ConstTypedGraph = TypedGraph<Types...>;

} // namespace ade
