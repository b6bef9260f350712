// Stand-in for pybind11, which is not installed: just what binding/src/main/cpp/py_*.h need.
// The simulator owns PyErr_CheckSignals, the only call into the interpreter.
#pragma once
#include <string>
#include <vector>
namespace pybind11 {
struct args {};
}
extern "C" int PyErr_CheckSignals();
