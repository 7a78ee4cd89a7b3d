// declarations only: the extraction needs the calls, not the values
#pragma once
#include <tuple>
#include <vector>
#include <complex>
template <class T> T& vc_ref(int);
template <class T> void vc_threads(T&) {}
