// Minimal stand-in for opencv/ade (thirdparty/ade is an empty submodule here and
// the library is not installed).  Only the observable behaviour deepworks needs is
// provided: a directed multigraph with typed per-node/per-edge/per-graph metadata,
// edges kept in insertion order, and a DFS topological sort (see passes/).
#pragma once

#include <algorithm>
#include <any>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace ade {

class Node;
class Edge;
class Graph;

// Handles: copyable, comparable, non owning (the graph owns nodes and edges).
template <typename T>
class Handle {
public:
    Handle() = default;
    Handle(std::nullptr_t) {}
    explicit Handle(T* p) : m_p(p) {}
    T* operator->() const { if (!m_p) throw std::logic_error("ade shim: null handle"); return m_p; }
    T* get() const { return m_p; }
    friend bool operator==(const Handle& a, const Handle& b) { return a.m_p == b.m_p; }
    friend bool operator!=(const Handle& a, const Handle& b) { return a.m_p != b.m_p; }
    friend bool operator==(const Handle& a, std::nullptr_t) { return a.m_p == nullptr; }
    friend bool operator!=(const Handle& a, std::nullptr_t) { return a.m_p != nullptr; }
    friend bool operator==(std::nullptr_t, const Handle& a) { return a.m_p == nullptr; }
    friend bool operator!=(std::nullptr_t, const Handle& a) { return a.m_p != nullptr; }
    friend bool operator<(const Handle& a, const Handle& b) { return a.m_p < b.m_p; }
private:
    T* m_p = nullptr;
};

using NodeHandle = Handle<Node>;
using EdgeHandle = Handle<Edge>;

template <typename T>
struct HandleHasher {
    std::size_t operator()(const Handle<T>& h) const { return std::hash<T*>()(h.get()); }
};

class Metadata {
public:
    template <typename T> void set(T&& v) {
        using D = typename std::decay<T>::type;
        m_data[std::type_index(typeid(D))] = std::make_shared<Holder<D>>(std::forward<T>(v));
    }
    template <typename T> T& get() const {
        auto it = m_data.find(std::type_index(typeid(T)));
        if (it == m_data.end()) throw std::logic_error("ade shim: no such metadata");
        return static_cast<Holder<T>*>(it->second.get())->value;
    }
    template <typename T> bool contains() const { return m_data.count(std::type_index(typeid(T))) != 0; }
    template <typename T> void erase() { m_data.erase(std::type_index(typeid(T))); }
private:
    struct Base { virtual ~Base() = default; };
    template <typename T> struct Holder : Base {
        template <typename U> explicit Holder(U&& u) : value(std::forward<U>(u)) {}
        T value;
    };
    std::unordered_map<std::type_index, std::shared_ptr<Base>> m_data;
};

class Edge {
public:
    NodeHandle srcNode() const { return m_src; }
    NodeHandle dstNode() const { return m_dst; }
private:
    friend class Graph;
    NodeHandle m_src, m_dst;
    Metadata   m_meta;
};

class Node {
public:
    using Edges = std::vector<EdgeHandle>;
    using Nodes = std::vector<NodeHandle>;
    const Edges& inEdges()  const { return m_in; }
    const Edges& outEdges() const { return m_out; }
    Nodes inNodes() const {
        Nodes r; r.reserve(m_in.size());
        for (auto& e : m_in) r.push_back(e->srcNode());
        return r;
    }
    Nodes outNodes() const {
        Nodes r; r.reserve(m_out.size());
        for (auto& e : m_out) r.push_back(e->dstNode());
        return r;
    }
private:
    friend class Graph;
    Edges    m_in, m_out;
    Metadata m_meta;
};

class Graph {
public:
    Graph() = default;
    Graph(const Graph&) = delete;
    Graph& operator=(const Graph&) = delete;

    NodeHandle createNode() {
        m_nodes.emplace_back(new Node());
        return NodeHandle(m_nodes.back().get());
    }
    EdgeHandle link(const NodeHandle& src, const NodeHandle& dst) {
        m_edges.emplace_back(new Edge());
        EdgeHandle eh(m_edges.back().get());
        eh->m_src = src; eh->m_dst = dst;
        src->m_out.push_back(eh);
        dst->m_in.push_back(eh);
        return eh;
    }
    std::vector<NodeHandle> nodes() const {
        std::vector<NodeHandle> r; r.reserve(m_nodes.size());
        for (auto& n : m_nodes) r.push_back(NodeHandle(n.get()));
        return r;
    }
    Metadata& metadata() { return m_meta; }
    Metadata& metadata(const NodeHandle& n) { return n->m_meta; }
    Metadata& metadata(const EdgeHandle& e) { return e->m_meta; }
    const Metadata& metadata() const { return m_meta; }
    const Metadata& metadata(const NodeHandle& n) const { return n->m_meta; }
    const Metadata& metadata(const EdgeHandle& e) const { return e->m_meta; }
private:
    std::vector<std::unique_ptr<Node>> m_nodes;
    std::vector<std::unique_ptr<Edge>> m_edges;
    Metadata m_meta;
};

} // namespace ade

namespace std {
template <> struct hash<ade::NodeHandle> { size_t operator()(const ade::NodeHandle& h) const { return hash<ade::Node*>()(h.get()); } };
template <> struct hash<ade::EdgeHandle> { size_t operator()(const ade::EdgeHandle& h) const { return hash<ade::Edge*>()(h.get()); } };
}
