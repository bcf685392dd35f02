#pragma once
#include <ade/graph.hpp>
#include <ade/passes/pass_base.hpp>

namespace ade { namespace passes {

struct TopologicalSortData {
    static const char* name() { return "TopologicalSortData"; }
    using NodesList = std::vector<NodeHandle>;
    NodesList m_nodes;
    NodesList nodes() const { return m_nodes; }
};

struct TopologicalSort {
    static const char* name() { return "TopologicalSort"; }
    void operator()(PassContext ctx) const {
        TopologicalSortData d;
        std::unordered_set<Node*> visited;
        for (auto nh : ctx.graph.nodes()) visit(d.m_nodes, visited, nh);
        ctx.graph.metadata().set(std::move(d));
    }
private:
    static void visit(std::vector<NodeHandle>& sorted, std::unordered_set<Node*>& visited, NodeHandle nh) {
        if (visited.count(nh.get())) return;
        visited.insert(nh.get());
        for (auto in : nh->inNodes()) visit(sorted, visited, in);
        sorted.push_back(nh);
    }
};

} }
