// The cifar10 sample's dataset, under a namespace of its own.
#include <deepworks/deepworks.hpp>
#define custom custom_cifar10
#include <samples/cifar10/utility.cpp>
