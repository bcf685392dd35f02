// Sample datasets, one namespace each (their sources all use "custom").
#pragma once
#include <deepworks/deepworks.hpp>
#define custom custom_iris
#include <samples/iris/utility.hpp>
#undef custom
#define custom custom_mnist
#include <samples/mnist/utility.hpp>
#undef custom
#define custom custom_cifar10
#include <samples/cifar10/utility.hpp>
#undef custom
#define custom custom_cifar100
#include <samples/cifar100/utility.hpp>
#undef custom
