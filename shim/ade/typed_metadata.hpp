#pragma once
#include <ade/typed_graph.hpp>
