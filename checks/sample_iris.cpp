// The iris sample's dataset, under a namespace of its own.
#include <deepworks/deepworks.hpp>
#define custom custom_iris
#include <samples/iris/utility.cpp>
