// The rigid-body helpers of genYAML, in a namespace of their own.
#include <vector>
#include <string>
#include <iostream>
#include <cmath>
#include <stdexcept>
#include <eigen3/Eigen/Dense>
#define thunder_ns genyaml_ns
#include <urdf2dh_inertial.cpp>
