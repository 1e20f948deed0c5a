// Part of the simulated program: the test runner's own application.
#include "best/test/test_main.cc"
