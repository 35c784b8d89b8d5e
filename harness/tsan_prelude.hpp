// Included before everything else in the dynamic layer's sources of the "tsan" build. What follows it is not
// optimised, so that no access of that code to memory is optimised away; libraries and templates above are.
#pragma once
#ifdef __cplusplus
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#include <Eigen/Core>
#include <Eigen/Dense>
#include <mav_trajectory_generation/polynomial_optimization_linear.h>
#include <mav_trajectory_generation/polynomial_optimization_nonlinear.h>
#include <mav_trajectory_generation/trajectory.h>
#include <mav_trajectory_generation/timing.h>
#pragma clang optimize off
#endif
