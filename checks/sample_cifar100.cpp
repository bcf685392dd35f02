// The cifar100 sample's dataset, under a namespace of its own.
#include <deepworks/deepworks.hpp>
#define custom custom_cifar100
#include <samples/cifar100/utility.cpp>
