// The mnist sample's dataset, under a namespace of its own.
#include <deepworks/deepworks.hpp>
#define custom custom_mnist
#include <samples/mnist/utility.cpp>
