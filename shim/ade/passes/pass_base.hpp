#pragma once
#include <ade/graph.hpp>
namespace ade { namespace passes {
struct PassContext { Graph& graph; };
} }
